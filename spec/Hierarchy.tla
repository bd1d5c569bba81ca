----------------------------- MODULE Hierarchy -----------------------------
(* Classes, abstract classes and interfaces with methods and fields; what a call,
   a type test, an array store or a field access on them does (JVMS 5.4.3, 5.4.6,
   4.10.1.2).  Types are numbered; 0 is java.lang.Object, -1 Cloneable, -2
   Serializable.  A behaviour builds a hierarchy, then asks questions and stores
   into fields. *)
EXTENDS Common
CONSTANTS MaxTypes, MaxFields, MaxQueries, Names, Kinds, FieldTypes, Steps, Record, Pick(_), Prims

VARIABLES ty,       \* sequence of [k: "class"|"abs"|"iface", sup, ifs: sequence, ms: name -> "none"|"decl"|"abs"|"priv", fs: sequence of [t, st, cv]]
          fv,       \* <<object (0: static), declaring type, index>> -> value stored
          hist
vars == <<ty, fv, hist>>

N == Len(ty)
IsI(i) == i > 0 /\ ty[i].k = "iface"
Types == 1..N
Classes == {i \in Types : ty[i].k # "iface"}
Concrete == {i \in Types : ty[i].k = "class"}
Ifaces == Types \ Classes
Sup(i) == ty[i].sup

\* the class and its superclasses, nearest first
RECURSIVE Chain(_)
Chain(i) == IF i = 0 THEN <<0>> ELSE <<i>> \o Chain(IF IsI(i) THEN 0 ELSE Sup(i))
\* i itself (if an interface) and all superinterfaces
RECURSIVE IfacesOf(_)
IfacesOf(i) == IF i <= 0 THEN {} ELSE (IF IsI(i) THEN {i} ELSE {}) \cup UNION {IfacesOf(j) : j \in Range1(ty[i].ifs)}
               \cup (IF IsI(i) THEN {} ELSE IfacesOf(Sup(i)))
SubType(a, b) == \/ a = b \/ b = 0
                 \/ a > 0 /\ b > 0 /\ b \in Range1(Chain(a)) \cup IfacesOf(a)

\* type expressions: <<base, dims>>; base a type number or the name of a primitive (only with dims > 0 for values)
IsPrim(x) == x[1] \in 100..107
SubT(a, b) ==       \* both not primitive types themselves
  IF b = <<0, 0>> THEN TRUE
  ELSE IF a[2] = 0 /\ b[2] = 0 THEN SubType(a[1], b[1])
  ELSE IF a[2] < b[2] THEN FALSE
  ELSE IF a[2] = b[2] THEN IF IsPrim(a) \/ IsPrim(b) THEN a[1] = b[1] ELSE SubType(a[1], b[1])
  ELSE b[1] \in {0, -1, -2}            \* more dimensions: an array is an Object, Cloneable and Serializable
Assignable(a, b) == IF (IsPrim(a) /\ a[2] = 0) \/ (IsPrim(b) /\ b[2] = 0) THEN a = b ELSE SubT(a, b)

\* -------- methods
Decl(i, n) == IF i = 0 THEN IF n = "h" THEN "decl" ELSE "none" ELSE ty[i].ms[n]
MaxSpecific(S, n) == LET D == {i \in S : Decl(i, n) \in {"decl", "abs"}} IN
                     {i \in D : ~ \E j \in D : j # i /\ i \in IfacesOf(j)}
FirstIn(c, P(_)) == IF \E k \in 1..Len(c) : P(c[k]) THEN c[CHOOSE k \in 1..Len(c) : P(c[k]) /\ \A j \in 1..(k-1) : ~ P(c[j])] ELSE -9
NoMethod == -9   Ambiguous == -8   AbsErr == -7   Private == -6   Npe == -5
\* resolution of a method named through type i: the declaring type, or NoMethod / Ambiguous
FromIfaces(S, n) == LET M == MaxSpecific(S, n)
                        D == {i \in M : Decl(i, n) = "decl"} IN
   IF M = {} THEN NoMethod ELSE IF Cardinality(D) > 1 \/ (D # {} /\ Cardinality(M) > 1) THEN Ambiguous
   ELSE IF D # {} THEN CHOOSE i \in D : TRUE ELSE CHOOSE i \in M : TRUE
Resolve(i, n) ==
  LET f == FirstIn(Chain(i), LAMBDA j : Decl(j, n) # "none" /\ (j # 0 \/ ~ IsI(i) \/ TRUE)) IN
  IF f # -9 THEN f ELSE FromIfaces(IfacesOf(i), n)
\* the method selected for an object of class r: never a private one, and independent of the type named in the call
Select(r, n) ==
  LET f == FirstIn(Chain(r), LAMBDA j : Decl(j, n) \in {"decl", "abs"}) IN
  IF f # -9 THEN IF Decl(f, n) = "abs" THEN AbsErr ELSE f
  ELSE LET m == FromIfaces(IfacesOf(r), n) IN
       IF m >= 0 THEN IF Decl(m, n) = "abs" THEN AbsErr ELSE m
       ELSE IF m = NoMethod THEN AbsErr ELSE m
HasPrivate(r, n) == \E j \in Range1(Chain(r)) : Decl(j, n) = "priv"
\* invokevirtual through class c on an object of class r (r = 0: null)
CallV(c, n, r) == LET m == Resolve(c, n) IN
  IF m = NoMethod THEN NoMethod ELSE IF m = Ambiguous THEN Ambiguous
  ELSE IF Decl(m, n) = "priv" THEN Private
  ELSE IF r = 0 THEN Npe ELSE Select(r, n)
\* invokespecial of c's superclass' method from a method of c
CallS(c, n) == LET s == Sup(c)
                   m == Resolve(s, n) IN
  IF m < 0 THEN m ELSE IF Decl(m, n) = "priv" THEN Private ELSE Select(s, n)

\* -------- fields
FieldIn(i, k, t) == i > 0 /\ k <= Len(ty[i].fs) /\ ty[i].fs[k].t = t
RECURSIVE FindF(_, _, _)
FindF(i, k, t) ==     \* the declaring types the lookup may find; more than one is ambiguous
  IF i <= 0 THEN {}
  ELSE IF FieldIn(i, k, t) THEN {i}
  ELSE LET S == UNION {FindF(j, k, t) : j \in Range1(ty[i].ifs)} IN
       IF S # {} THEN S ELSE IF IsI(i) THEN {} ELSE FindF(Sup(i), k, t)
DefaultOf(t) == 0
ValOf(o, d, k) == IF <<o, d, k>> \in DOMAIN fv THEN fv[<<o, d, k>>]
                  ELSE IF o = 0 THEN ty[d].fs[k].cv ELSE DefaultOf(ty[d].fs[k].t)
ValuesOf(t) == CASE t = "Z" -> {0, 1} [] t = "B" -> {-128, -1, 5, 127} [] t = "C" -> {1, 65535, 300} [] t = "S" -> {-32768, -2, 513}
                 [] OTHER -> {-9, -1, 77, 1000, 32767}
------------------------------------------------------------------------------
Log(op, args, res) == hist' = IF Record THEN Append(hist, <<op, args, res>>) ELSE hist
Ask(op, args, res) == UNCHANGED <<ty, fv>> /\ Log(op, args, res)

MethodKinds(k, n) == CASE k = "iface" -> {"none", "abs", "decl"}
                      [] k = "abs" -> {"none", "decl", "abs", "priv"}
                      [] OTHER -> {"none", "decl", "priv"}
\* few private and many absent methods
Weight(k) == CASE k = "iface" -> <<"none", "none", "abs", "abs", "decl">>
               [] k = "abs" -> <<"none", "none", "decl", "abs", "priv", "decl">>
               [] OTHER -> <<"none", "none", "decl", "decl", "priv", "decl">>
\* in an exhaustive check each kind once
MChoices(k, n) == IF n \notin Names THEN {1} ELSE IF Record THEN 1..Len(Weight(k))
                 ELSE IF k = "iface" THEN {1, 3, 5} ELSE IF k = "abs" THEN {1, 3, 4, 5} ELSE {1, 3, 5}
AddType ==
  /\ N < MaxTypes /\ hist = <<>>
  /\ \E k \in Pick(Kinds), sup \in Pick({0, 0} \cup Classes), a \in Pick({0} \cup Ifaces), b \in Pick({0} \cup Ifaces), c \in Pick({0} \cup Ifaces) :
     LET ifs == (IF a > 0 THEN <<a>> ELSE <<>>) \o (IF b > 0 /\ b # a THEN <<b>> ELSE <<>>) \o (IF c > 0 /\ c \notin {a, b} THEN <<c>> ELSE <<>>)
         w == Weight(k) IN
     \E ia \in Pick(MChoices(k, "a")), ib \in Pick(MChoices(k, "b")), id \in Pick(MChoices(k, "d")), ih \in Pick(MChoices(k, "h")) :
     \E bare \in Pick(IF Record THEN 0..3 ELSE {0}) :
     \E nf \in Pick(0..MaxFields), cv \in Pick(IF Record THEN 0..1 ELSE {1}) :
     \E t1 \in Pick(IF nf > 0 THEN FieldTypes ELSE {0}), t2 \in Pick(IF nf > 1 THEN FieldTypes ELSE {0}), t3 \in Pick(IF nf > 2 THEN FieldTypes ELSE {0}),
        s1 \in Pick(IF nf > 0 THEN {TRUE, FALSE} ELSE {TRUE}), s2 \in Pick(IF nf > 1 THEN {TRUE, FALSE} ELSE {TRUE}), s3 \in Pick(IF nf > 2 THEN {TRUE, FALSE} ELSE {TRUE}) :
     LET FS == <<[t |-> t1, st |-> s1], [t |-> t2, st |-> s2], [t |-> t3, st |-> s3]>>
         idx == ("a" :> ia @@ "b" :> ib @@ "d" :> id @@ "h" :> ih)
         h == w[ih] IN
     /\ ty' = Append(ty, [k |-> k, sup |-> IF k = "iface" THEN 0 ELSE sup, ifs |-> ifs,
                          ms |-> [n \in Names |-> IF bare = 1 THEN "none" ELSE IF n = "h" THEN IF k = "iface" \/ h \in {"priv", "abs"} THEN "none" ELSE h ELSE w[idx[n]]],
                          fs |-> [i \in 1..nf |-> [t |-> FS[i].t, st |-> k = "iface" \/ FS[i].st,
                                                   cv |-> IF (k = "iface" \/ FS[i].st) /\ cv = 1 THEN 10 + i ELSE 0]]])
  /\ UNCHANGED <<fv, hist>>

\* subclasses of c that have objects, and null
Recv(c) == {0} \cup {r \in Concrete : SubType(r, c)}
Likely(S) == IF S \ {0} = {} THEN S ELSE S \ {0}
RecvOf(c) == IF Record THEN Pick(Likely(Recv(c))) \cup (IF 0 \in Pick(0..7) THEN {0} ELSE {}) ELSE Recv(c)
Visible(x) == x \notin {Ambiguous, Private}
Virt == \E c \in Pick(Classes \cup {0}), n \in Pick(Names) : \E r \in Pick(RecvOf(c)) :
  LET res == CallV(c, n, r) IN Visible(res) /\ Ask("virt", <<c, n, r>>, res)
Iface == \E c \in Pick(Ifaces), n \in Pick(Names \ {"h"}) : \E r \in Pick(RecvOf(c)) :
  LET res == CallV(c, n, r) IN Visible(res) /\ ~ HasPrivate(r, n) /\ Ask("iface", <<c, n, r>>, res)
\* named: the class written in the instruction, any ancestor that resolves to the same place
Super == \E c \in Pick({c \in Classes : TRUE}), n \in Pick(Names) : \E r \in Pick(Recv(c) \ {0}), named \in Pick(Range1(Chain(c)) \ {c}) :
  LET res == CallS(c, n) IN Visible(res) /\ Resolve(named, n) >= 0 /\ Decl(Resolve(named, n), n) # "priv" /\ ~ HasPrivate(Sup(c), n)
      /\ res # NoMethod /\ Ask("super", <<c, n, r, named>>, res)
\* a default method of a direct superinterface named in an invokespecial
IfaceSuper == \E c \in Pick({c \in Classes : ty[c].ifs # <<>>}) : \E i \in Pick(Range1(ty[c].ifs)), n \in Pick(Names \ {"h"}) : \E r \in Pick(Recv(c) \ {0}) :
  LET m == FromIfaces(IfacesOf(i), n) IN m > 0 /\ Decl(m, n) = "decl" /\ Ask("isuper", <<c, i, n, r>>, m)
Priv == \E c \in Pick(Classes) : \E n \in Pick({n \in Names : Decl(c, n) = "priv"}) : \E r \in Pick(Recv(c) \ {0}) :
  Ask("priv", <<c, n, r>>, c)

Bases == Types \cup {0, -1, -2} \cup Prims
Dim(b, d) == <<b, d>>
\* values: null, an object, or an array
ValueTypes == {<<r, 0>> : r \in Concrete \cup {0}} \cup {<<b, d>> : b \in Bases, d \in 1..2}
Refs == {<<b, 0>> : b \in Bases \ Prims} \cup {<<b, d>> : b \in Bases, d \in 1..2}
\* pick one that is likely related
Near(v) == IF Record /\ 0 \in Pick(0..1) THEN {t \in Refs : SubT(v, t)} ELSE Refs
Inst == \E v \in Pick(ValueTypes) : \E t \in Pick(Near(v)) : Ask("inst", <<v, t>>, SubT(v, t))
Cast == \E v \in Pick(ValueTypes) : \E t \in Pick(Near(v)) : Ask("cast", <<v, t>>, SubT(v, t))
NullTests == \E t \in Pick(Refs) : Ask("null", <<t>>, 0)
Store == \E v \in Pick(ValueTypes) : \E t \in Pick({t \in Near(v) : t[2] < 2}) : Ask("store", <<v, t>>, SubT(v, t))
\* System.arraycopy of n elements v between arrays with element types s and t
Copy == \E v \in Pick(ValueTypes) : \E s \in Pick({x \in Near(v) : x[2] < 2 /\ SubT(v, x)}) : \E t \in Pick({x \in Near(v) : x[2] < 2}) : Ask("copy", <<v, s, t>>, SubT(v, t))
PrimCopy == \E a \in Pick(Prims), b \in Pick(Prims \cup {0}), o \in Pick({0, 1}) : Ask("pcopy", <<a, b, o>>, a = b)
Assign == \E a \in Pick({<<b, d>> : b \in Bases, d \in 0..2}), b \in Pick({<<b, d>> : b \in Bases, d \in 0..2}) : Ask("assign", <<a, b>>, Assignable(a, b))
IsInst == \E v \in Pick(ValueTypes) : \E t \in Pick(Near(v) \cup {<<p, 0>> : p \in Prims}) :
          Ask("isinst", <<v, t>>, IF IsPrim(t) /\ t[2] = 0 THEN FALSE ELSE SubT(v, t))

FieldQuery(c, k, t) == LET S == FindF(c, k, t) IN
  IF Cardinality(S) # 1 THEN IF S = {} THEN -9 ELSE -8 ELSE CHOOSE d \in S : TRUE
GetF == \E c \in Pick(Classes), k \in Pick(1..3) : \E t \in Pick(FieldTypes) : \E r \in Pick(RecvOf(c)) :
  LET d == FieldQuery(c, k, t) IN
  /\ d # -8 /\ (r # 0 \/ d > 0) /\ (d > 0 => ~ ty[d].fs[k].st)
  /\ Ask("getf", <<c, k, t, r>>, IF d = -9 THEN <<"nofield">> ELSE IF r = 0 THEN <<"npe">> ELSE <<"val", ValOf(r, d, k)>>)
PutF == \E c \in Pick(Classes), k \in Pick(1..3) : \E t \in Pick(FieldTypes) : \E r \in Pick(RecvOf(c)), v \in Pick(ValuesOf(t)) :
  LET d == FieldQuery(c, k, t) IN
  /\ d > 0 /\ ~ ty[d].fs[k].st
  /\ UNCHANGED ty /\ fv' = (IF r = 0 THEN fv ELSE (<<r, d, k>> :> v) @@ fv)
  /\ Log("putf", <<c, k, t, r, v>>, IF r = 0 THEN <<"npe">> ELSE <<"ok">>)
GetS == \E c \in Pick(Types), k \in Pick(1..3) : \E t \in Pick(FieldTypes) :
  LET d == FieldQuery(c, k, t) IN
  /\ d > 0 /\ ty[d].fs[k].st /\ Ask("gets", <<c, k, t>>, ValOf(0, d, k))
PutS == \E c \in Pick(Classes), k \in Pick(1..3) : \E t \in Pick(FieldTypes) : \E v \in Pick(ValuesOf(t)) :
  LET d == FieldQuery(c, k, t) IN
  /\ d \in Classes /\ ty[d].fs[k].st
  /\ UNCHANGED ty /\ fv' = (<<0, d, k>> :> v) @@ fv /\ Log("puts", <<c, k, t, v>>, 0)
\* pick a field that exists, so that most field accesses find one
FieldHit(i) == \E d \in Pick({d \in Types : ty[d].fs # <<>>}) : \E k \in Pick(1..Len(ty[d].fs)) : \E c \in Pick({c \in Types : SubType(c, d)}) :
  LET t == ty[d].fs[k].t
      f == FieldQuery(c, k, t) IN
  /\ f > 0
  /\ IF ty[f].fs[k].st
     THEN \/ i = 1 /\ Ask("gets", <<c, k, t>>, ValOf(0, f, k))
          \/ i = 2 /\ f \in Classes /\ \E v \in Pick(ValuesOf(t)) : UNCHANGED ty /\ fv' = (<<0, f, k>> :> v) @@ fv /\ Log("puts", <<c, k, t, v>>, 0)
     ELSE c \in Classes /\ \E r \in Pick(RecvOf(c)) :
          \/ i = 1 /\ Ask("getf", <<c, k, t, r>>, IF r = 0 THEN <<"npe">> ELSE <<"val", ValOf(r, f, k)>>)
          \/ i = 2 /\ \E v \in Pick(ValuesOf(t)) : UNCHANGED ty /\ fv' = (IF r = 0 THEN fv ELSE (<<r, f, k>> :> v) @@ fv)
                      /\ Log("putf", <<c, k, t, r, v>>, IF r = 0 THEN <<"npe">> ELSE <<"ok">>)
Gc == Ask("gc", <<>>, 0)

Do(op) == CASE op = "virt" -> Virt [] op = "iface" -> Iface [] op = "super" -> Super [] op = "isuper" -> IfaceSuper [] op = "priv" -> Priv
            [] op = "inst" -> Inst [] op = "cast" -> Cast [] op = "null" -> NullTests [] op = "store" -> Store [] op = "copy" -> Copy [] op = "pcopy" -> PrimCopy [] op = "assign" -> Assign
            [] op = "isinst" -> IsInst [] op = "getf" -> GetF [] op = "putf" -> PutF [] op = "gets" -> GetS [] op = "puts" -> PutS
            [] op = "fget" -> FieldHit(1) [] op = "fput" -> FieldHit(2) [] op = "gc" -> Gc
Menu == <<"virt", "virt", "virt", "iface", "iface", "iface", "super", "super", "super", "isuper", "isuper", "priv", "priv", "inst", "cast", "null", "store", "isinst",
          "getf", "putf", "gets", "puts", "fget", "fget", "fget", "fput", "fput", "fput", "virt", "iface", "gc", "copy", "pcopy">>
Init == ty = <<>> /\ fv = <<>> /\ hist = <<>>
\* everything, for the final comparison: the fields of every object and all statics
Final == LET objs == SortInts(Concrete) IN
  [i \in 1..Len(objs) |-> <<objs[i], [j \in 1..Len(Chain(objs[i])) |->
      LET d == Chain(objs[i])[j] IN IF d = 0 THEN <<>> ELSE <<d, [k \in 1..Len(ty[d].fs) |-> ValOf(IF ty[d].fs[k].st THEN 0 ELSE objs[i], d, k)]>>]>>]
Emit == PrintT(ToJson([ty |-> ty, hist |-> hist, fin |-> Final]))
Build == N < MaxTypes /\ AddType
Next == \/ Build
        \/ /\ N = MaxTypes /\ Len(hist) < MaxQueries
           /\ \E c \in 0..Steps : IF c = 0 THEN Assign ELSE \E i \in Pick(1..Len(Menu)) : Do(Menu[i])
        \/ /\ Len(hist) = MaxQueries /\ Record /\ Emit /\ hist' = Append(hist, <<"end", <<>>, 0>>) /\ UNCHANGED <<ty, fv>>
        \/ /\ Len(hist) > MaxQueries /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* what is checked exhaustively for every small hierarchy
Order == \A a, b, c \in Types \cup {0} :
  /\ SubType(a, a)
  /\ SubType(a, b) /\ SubType(b, a) => a = b
  /\ SubType(a, b) /\ SubType(b, c) => SubType(a, c)
Arrays == \A a, b \in Types \cup {0} : \A d \in 1..2 :
  /\ SubT(<<a, d>>, <<b, d>>) = SubType(a, b)
  /\ ~ SubT(<<a, d - 1>>, <<b, d>>)
  /\ \A p \in Prims : ~ SubT(<<a, d>>, <<p, d>>) /\ ~ SubT(<<p, d>>, <<a, d>>)
\* the selected method is the receiver's own unless no class below declares one, comes from a supertype, and overrides every other candidate
Selection == \A r \in Concrete, n \in Names : LET m == Select(r, n) IN
  m >= 0 =>
    /\ SubType(r, m) /\ Decl(m, n) = "decl"
    /\ ~ IsI(m) => \A j \in Range1(Chain(r)) : SubType(j, m) /\ j # m => Decl(j, n) \in {"none", "priv"}
    /\ IsI(m) => /\ \A j \in Range1(Chain(r)) : Decl(j, n) \in {"none", "priv"}
                 /\ \A j \in IfacesOf(r) : Decl(j, n) # "none" => j \in IfacesOf(m)
\* a call that resolves runs the same method whatever supertype it names
Uniform == \A r \in Concrete, n \in Names : \A c, d \in {c \in Types : SubType(r, c)} :
  LET x == CallV(c, n, r)  y == CallV(d, n, r) IN
  x \notin {NoMethod, Ambiguous, Private} /\ y \notin {NoMethod, Ambiguous, Private} => x = y
FieldOwner == \A c \in Types, k \in 1..3, t \in FieldTypes : \A d \in FindF(c, k, t) : SubType(c, d) /\ FieldIn(d, k, t)
=============================================================================
