------------------------------ MODULE Loaders ------------------------------
(* Class loaders: delegation to the parent first or last, classes defined and
   resolved once per loader, references resolved through the defining loader,
   and the errors of missing and malformed classes. Loader 0 is the
   application's, which has none of these classes. *)
EXTENDS Common
CONSTANTS Loaders, Names, MaxSteps, MaxLen, Record, Pick(_), PickSeq(_, _)
VARIABLES parent, first, repo, repo0, super, def, init, failed, n, done, hist
vars == <<parent, first, repo, repo0, super, def, init, failed, n, done, hist>>

States == {"none", "good", "truncated", "magic", "throws"}
None == <<0, 0>>
Fail(e) == <<-1, e>>
IsClass(r) == r[1] > 0
\* ---- requests: [d |-> defined classes, i |-> recorded requests, r |-> class <<loader, name>> or error]
RECURSIVE Load(_, _, _, _), Find(_, _, _, _), Resolve(_, _, _, _)
Load(d, i, l, c) ==
  IF l = 0 THEN [d |-> d, i |-> i, r |-> Fail("ClassNotFoundException")]
  ELSE IF i[l][c] # None THEN [d |-> d, i |-> i, r |-> i[l][c]]
  ELSE IF first[l] THEN LET x == Load(d, i, parent[l], c) IN IF x.r = Fail("ClassNotFoundException") THEN Find(x.d, x.i, l, c) ELSE x
  ELSE IF repo[l][c] # "none" THEN Find(d, i, l, c) ELSE Load(d, i, parent[l], c)
Define(d, i, l, c) ==
  IF i[l][c] # None THEN [d |-> d, i |-> i, r |-> Fail("LinkageError")]
  ELSE [d |-> d \cup {<<l, c>>}, i |-> [i EXCEPT ![l][c] = <<l, c>>], r |-> <<l, c>>]
Find(d, i, l, c) ==
  CASE repo[l][c] = "none" -> [d |-> d, i |-> i, r |-> Fail("ClassNotFoundException")]
    [] repo[l][c] \in {"truncated", "magic"} -> [d |-> d, i |-> i, r |-> Fail("ClassFormatError")]
    [] repo[l][c] = "throws" -> [d |-> d, i |-> i, r |-> Fail("IllegalStateException")]
    [] OTHER -> IF super[c] = 0 THEN Define(d, i, l, c)
                ELSE LET x == Resolve(d, i, l, super[c]) IN IF IsClass(x.r) THEN Define(x.d, x.i, l, c) ELSE x
Resolve(d, i, l, c) ==
  LET x == Load(d, i, l, c) IN
  IF IsClass(x.r) THEN [x EXCEPT !.i[l][c] = x.r]
  ELSE IF x.r = Fail("ClassNotFoundException") THEN [x EXCEPT !.r = Fail("NoClassDefFoundError")] ELSE x
RECURSIVE Supers(_, _)
\* the classes above a class, itself included: a superclass is what the defining loader resolved it to
Supers(i, k) == {k} \cup (IF super[k[2]] = 0 THEN {} ELSE Supers(i, i[k[1]][super[k[2]]]))


Tick == n' = n + 1
Fixed == UNCHANGED <<parent, first, repo0, super, done>>
Show(r) == IF IsClass(r) THEN ToString(r[2]) \o "@" \o ToString(r[1]) ELSE r[2]
H(op, r) == hist' = IF Record THEN Append(hist, <<op, r>>) ELSE hist
Take(x) == def' = x.d /\ init' = x.i
Keep == UNCHANGED <<repo, def, init, failed>>
\* ---- operations
DoLoad == \E l \in Pick(Loaders), c \in Pick(Names), how \in Pick(IF Record THEN {"load", "load", "forName", "array"} ELSE {"load"}) :
  LET x == Load(def, init, l, c) IN
  IF how = "array" /\ ~IsClass(x.r) THEN H(<<"gc">>, "ok") /\ Keep
  ELSE Take(x) /\ UNCHANGED <<repo, failed>> /\ H(<<how, l, c>>, Show(x.r))
\* several threads at once, through a loader and those that delegate to it
DoRace == \E l \in Pick(Loaders), c \in Pick(Names) :
  LET x == Load(def, init, l, c) IN Take(x) /\ UNCHANGED <<repo, failed>> /\ H(<<"race", l, c>>, Show(x.r))
DoDefine == \E l \in Pick(Loaders), c \in Pick(Names), bad \in Pick(IF Record THEN {"good", "good", "truncated", "magic"} ELSE {"good"}) :
  LET sup == IF super[c] = 0 THEN [d |-> def, i |-> init, r |-> <<l, c>>] ELSE Resolve(def, init, l, super[c])
      x == IF bad # "good" THEN [d |-> def, i |-> init, r |-> Fail("ClassFormatError")] ELSE IF ~IsClass(sup.r) THEN sup ELSE Define(sup.d, sup.i, l, c) IN
  Take(x) /\ UNCHANGED <<repo, failed>> /\ H(<<"define", l, c, bad>>, Show(x.r))
\* only a defined class, or one never asked for, has just one right answer
DoFind == \E l \in Pick(Loaders), c \in Pick(Names) :
  Keep /\ H(<<"find", l, c>>, IF <<l, c>> \in def THEN Show(<<l, c>>) ELSE IF \E k \in def : k[2] = c THEN "?" ELSE "null")
\* code of a class refers to another by name
DoRef == \E k \in Pick(def), c \in Pick(Names), how \in Pick(IF Record THEN {"refNew", "refLiteral", "refStatic", "refArray", "refArray2", "refRace"} ELSE {"refNew"}) :
  IF <<k, c>> \in failed THEN Keep /\ H(<<"gc">>, "ok")
  ELSE LET x == Resolve(def, init, k[1], c) IN
       /\ Take(x) /\ UNCHANGED repo /\ failed' = (IF IsClass(x.r) THEN failed ELSE failed \cup {<<k, c>>})
       /\ H(<<how, k[1], k[2], c>>, Show(x.r))
DoIs == \E k, q \in Pick(def) : Keep /\ H(<<"is", k[1], k[2], q[1], q[2]>>, IF q \in Supers(init, k) THEN "true" ELSE "false")
DoSuper == \E k \in Pick(def) : Keep /\ H(<<"super", k[1], k[2]>>, IF super[k[2]] = 0 THEN "Object" ELSE Show(init[k[1]][super[k[2]]]))
\* class files appear, disappear and are damaged or mended
DoChange == \E l \in Pick(Loaders), c \in Pick(Names), s \in Pick(IF Record THEN States ELSE {"none", "good"}) :
  repo' = [repo EXCEPT ![l][c] = s] /\ UNCHANGED <<def, init, failed>> /\ H(<<"change", l, c, s>>, "ok")
DoGc == Keep /\ H(<<"gc">>, "ok")

Chain == [l \in Loaders |-> l - 1]
Init == /\ parent = Chain /\ first \in IF Record THEN {[l \in Loaders |-> TRUE]} ELSE [Loaders -> {TRUE, FALSE}]
        /\ super = [c \in Names |-> c - 1]
        /\ repo \in IF Record THEN {[l \in Loaders |-> [c \in Names |-> "none"]]} ELSE [Loaders -> [Names -> {"none", "good"}]]
        /\ repo0 = repo /\ def = {} /\ init = [l \in Loaders |-> [c \in Names |-> None]] /\ failed = {} /\ n = (IF Record THEN -1 ELSE 0) /\ done = FALSE /\ hist = <<>>
\* a drawn hierarchy and drawn files
Setup == /\ n = -1 /\ n' = 0
         /\ parent' = TLCEval([l \in Loaders |-> RandomElement(0..(l - 1))])
         /\ first' = TLCEval([l \in Loaders |-> RandomElement({TRUE, FALSE})])
         /\ super' = TLCEval([c \in Names |-> RandomElement({0, 0} \cup 0..(c - 1))])
         /\ repo' = TLCEval([l \in Loaders |-> [c \in Names |-> LET r == RandomElement(1..10) IN IF r < 7 THEN "good" ELSE IF r < 9 THEN "none" ELSE RandomElement(States)]])
         /\ repo0' = repo'
         /\ UNCHANGED <<def, init, failed, done, hist>>
Ops == <<"load", "load", "load", "race", "define", "find", "ref", "ref", "ref", "is", "super", "change", "change", "gc">>
Do(op) == CASE op = "load" -> DoLoad [] op = "race" -> DoRace [] op = "define" -> DoDefine [] op = "find" -> DoFind [] op = "ref" -> DoRef [] op = "is" -> DoIs
  [] op = "super" -> DoSuper [] op = "change" -> DoChange [] op = "gc" -> DoGc
Step == /\ n \in 0..(MaxSteps - 1)
        /\ IF Record THEN \E c \in 1..8 : IF c = 1 THEN DoLoad ELSE \E i \in Pick(1..Len(Ops)) : Do(Ops[i]) ELSE \E op \in Range1(Ops) \ {"gc", "race", "find", "is", "super"} : Do(op)
        /\ Tick /\ Fixed
Emit == /\ Record /\ n = MaxSteps /\ ~done
        /\ PrintT(ToJson([parent |-> parent, first |-> first, super |-> super, hist |-> hist, files |-> repo0]))
        /\ done' = TRUE /\ UNCHANGED <<parent, first, repo, repo0, super, def, init, failed, n, hist>>
Next == Setup \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* properties of the specification itself *)
\* a loader's answer never changes once recorded, and what it defined is its answer
StableOK == [][\A l \in Loaders, c \in Names : (init[l][c] # None => init'[l][c] = init[l][c]) /\ def \subseteq def']_vars
UniqueOK == \A l \in Loaders, c \in Names : (<<l, c>> \in def <=> init[l][c] = <<l, c>>)
\* an answer is a class of that name defined by the loader or one above it
RECURSIVE Above(_)
Above(l) == IF l = 0 THEN {} ELSE {l} \cup Above(parent[l])
OwnOK == \A l \in Loaders, c \in Names : LET k == init[l][c] IN k # None => k[2] = c /\ k[1] \in Above(l) /\ k \in def
\* every class is defined with its superclass resolved by its own loader
SuperOK == \A k \in def : super[k[2]] # 0 => init[k[1]][super[k[2]]] # None
=============================================================================
