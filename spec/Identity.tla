------------------------------ MODULE Identity ------------------------------
(* Object identity: == , identity hash codes, monitors' association with their
   object, clone() and String.intern(), none of which may be disturbed by the
   collector moving objects. *)
EXTENDS Common
CONSTANTS KindsC, NSlots, MaxObj, Lits, Contents, MaxLen, Record, Pick(_)

(* kinds: 0 plain object, 1 cloneable, 2 cloneable with finalizer, 3 cloneable subclass with more fields,
   4 byte[n], 5 int[n], 6 long[n], 7 Object[n], 8 char[n], 9 string, 10 large byte[] (allocated in place), 11 int[n][n] *)
VARIABLES obj,    \* id -> [kind, f: sequence of contents (ints or ids), hashed]
          slot,   \* slot -> id or 0
          canon,  \* content -> id of the canonical string or 0
          idmap,  \* IdentityHashMap: id -> value
          next, stale, hist
vars == <<obj, slot, canon, idmap, next, stale, hist>>
Log(op, args, r) == hist' = IF Record THEN Append(hist, <<op, args, r>>) ELSE hist
U == UNCHANGED <<obj, slot, canon, idmap, next, stale>>

HasRefs(k) == k \in {0, 1, 2, 3, 7}
\* number of slots of contents of an object of kind k and length n; 0, 1, 2: an int and a reference; 3: two more ints
Refs(o) == IF obj[o].kind = 7 THEN Range1(obj[o].f) \ {0} ELSE IF obj[o].kind \in 0..3 THEN {obj[o].f[2]} \ {0} ELSE {}
RECURSIVE Reach(_, _)
Reach(seen, todo) == IF todo = {} THEN seen
  ELSE LET nxt == UNION {Refs(o) : o \in todo} IN Reach(seen \cup todo, nxt \ (seen \cup todo))
Live == Reach({}, (Range1(slot) \cup DOMAIN idmap \cup {canon[c] : c \in Lits}) \ {0})
Used == {s \in 1..NSlots : slot[s] # 0}
NotStr == {s \in Used : obj[slot[s]].kind # 9}
Strs == {s \in Used : obj[slot[s]].kind = 9}

Fresh(k, n) == CASE k \in 0..2 -> <<0, 0>> [] k = 3 -> <<0, 0, 0, 0>> [] OTHER -> [i \in 1..n |-> 0]
\* strings that could no longer be reached by the program may or may not still be canonical
Stale(cn, sl, ob, im) == stale \cup {c \in Contents \ Lits : cn[c] # 0 /\ cn[c] \notin
   LET RECURSIVE R(_, _)
       R(seen, todo) == IF todo = {} THEN seen ELSE LET nxt == UNION {IF ob[o].kind = 7 THEN Range1(ob[o].f) \ {0}
                          ELSE IF ob[o].kind \in 0..3 THEN {ob[o].f[2]} \ {0} ELSE {} : o \in todo} IN R(seen \cup todo, nxt \ (seen \cup todo))
   IN R({}, (Range1(sl) \cup DOMAIN im) \ {0})}
Put(s, o, ob) == /\ slot' = [slot EXCEPT ![s] = o] /\ obj' = ob
                 /\ stale' = Stale(canon, [slot EXCEPT ![s] = o], ob, idmap)
New == \E s \in Pick(IF Record THEN 1..NSlots ELSE {1}), k \in Pick(KindsC \ {9}), n \in Pick(IF Record THEN 0..5 ELSE {1}) :
  /\ next <= MaxObj /\ Put(s, next, (next :> [kind |-> k, f |-> Fresh(k, n), hashed |-> FALSE]) @@ obj)
  /\ next' = next + 1 /\ UNCHANGED <<canon, idmap>> /\ Log("new", <<s, k, n, next>>, 0)
\* a fresh string; w: how it is made
NewStr == \E s \in Pick(IF Record THEN 1..NSlots ELSE {1}), c \in Pick(Contents), w \in Pick(IF Record THEN 0..4 ELSE {0}) :
  /\ next <= MaxObj /\ 9 \in KindsC
  /\ Put(s, next, (next :> [kind |-> 9, f |-> <<c>>, hashed |-> FALSE]) @@ obj)
  /\ next' = next + 1 /\ UNCHANGED <<canon, idmap>> /\ Log("newstr", <<s, c, w>>, 0)
\* the literal in the code of the driver
Literal == \E s \in Pick(1..NSlots), c \in Pick(Lits) :
  /\ canon[c] # 0 /\ Put(s, canon[c], obj) /\ UNCHANGED <<canon, idmap, next>> /\ Log("literal", <<s, c>>, 0)
Intern == \E s \in Pick(Strs), d \in Pick(1..NSlots) : LET c == obj[slot[s]].f[1]
                                                          o == IF canon[c] # 0 THEN canon[c] ELSE slot[s] IN
  /\ c \notin stale
  /\ canon' = [canon EXCEPT ![c] = o] /\ slot' = [slot EXCEPT ![d] = o]
  /\ stale' = Stale(canon', slot', obj, idmap)
  /\ UNCHANGED <<obj, idmap, next>> /\ Log("intern", <<s, d>>, o = slot[s])
StrEq == \E s \in Pick(Strs), d \in Pick(Strs) : U /\ Log("streq", <<s, d>>, obj[slot[s]].f[1] = obj[slot[d]].f[1])
Copy == \E s \in Pick(Used), d \in Pick(1..NSlots) : Put(d, slot[s], obj) /\ UNCHANGED <<canon, idmap, next>> /\ Log("copy", <<s, d>>, 0)
Drop == \E s \in Pick(Used) : Put(s, 0, obj) /\ UNCHANGED <<canon, idmap, next>> /\ Log("drop", <<s>>, 0)
Eq == \E s \in Pick(Used), d \in Pick(Used) : U /\ Log("same", <<s, d>>, slot[s] = slot[d])
\* the answer must never change; the driver remembers the first one it got for this object
Hash == \E s \in Pick(Used) : /\ obj' = [obj EXCEPT ![slot[s]].hashed = TRUE]
  /\ UNCHANGED <<slot, canon, idmap, next, stale>> /\ Log("hash", <<s, slot[s]>>, "ok")
\* hold the monitor of s: who else seems locked?
HoldsLock == \E s \in Pick(Used), d \in Pick(Used), g \in Pick(IF Record THEN 0..2 ELSE {0}) :
  U /\ Log("hold", <<s, d, g>>, slot[s] = slot[d])

Writable(o) == IF obj[o].kind \in {9, 10} THEN {} ELSE IF obj[o].kind = 11 THEN {} ELSE IF obj[o].kind = 2 THEN {1} ELSE \* finalizers would keep things alive a little longer
               1..Len(obj[o].f)
RefAt(o, i) == obj[o].kind = 7 \/ (obj[o].kind \in 0..3 /\ i = 2)
WSlots == {s \in Used : Writable(slot[s]) # {}}
SetInt == \E s \in Pick(WSlots) : \E i \in Pick({i \in Writable(slot[s]) : ~RefAt(slot[s], i)}), v \in Pick(IF Record THEN 0..99 ELSE {1}) :
  /\ obj' = [obj EXCEPT ![slot[s]].f[i] = v] /\ UNCHANGED <<slot, canon, idmap, next, stale>> /\ Log("setint", <<s, i, v>>, 0)
SetRef == \E s \in Pick(WSlots) : \E i \in Pick({i \in Writable(slot[s]) : RefAt(slot[s], i)}), d \in Pick(1..NSlots) :
  /\ obj' = [obj EXCEPT ![slot[s]].f[i] = slot[d]] /\ stale' = Stale(canon, slot, obj', idmap)
  /\ UNCHANGED <<slot, canon, idmap, next>> /\ Log("setref", <<s, i, d>>, 0)
\* ints read back, references compared with what every slot holds
Read == \E s \in Pick(WSlots) : LET o == slot[s] IN U /\ Log("read", <<s>>, IF Record THEN
   [i \in 1..Len(obj[o].f) |-> IF RefAt(o, i) THEN (LET m == {d \in 1..NSlots : slot[d] = obj[o].f[i]} IN
       IF obj[o].f[i] = 0 THEN 0 ELSE IF m = {} THEN -1 ELSE CHOOSE d \in m : \A e \in m : d <= e) ELSE obj[o].f[i]] ELSE 0)
LoadRef == \E s \in Pick(WSlots) : \E i \in Pick({i \in Writable(slot[s]) : RefAt(slot[s], i)}), d \in Pick(1..NSlots) :
  /\ Put(d, obj[slot[s]].f[i], obj) /\ UNCHANGED <<canon, idmap, next>> /\ Log("loadref", <<s, i, d>>, 0)
CanClone(o) == obj[o].kind \in {1, 2, 3, 4, 5, 6, 7, 8, 10, 11}
Clone == \E s \in Pick(NotStr), d \in Pick(1..NSlots) : LET o == slot[s] IN
  /\ next <= MaxObj
  /\ IF CanClone(o) THEN /\ Put(d, next, (next :> [obj[o] EXCEPT !.hashed = FALSE]) @@ obj) /\ next' = next + 1
                         /\ UNCHANGED <<canon, idmap>> /\ Log("clone", <<s, d, next>>, 0)
     ELSE U /\ Log("clone", <<s, d, 0>>, "!CloneNotSupportedException")
IPut == \E s \in Pick(Used), v \in Pick(IF Record THEN 1..9 ELSE {1}) : LET o == slot[s] IN
  /\ idmap' = (o :> v) @@ idmap /\ UNCHANGED <<obj, slot, canon, next, stale>>
  /\ Log("iput", <<s, v>>, IF o \in DOMAIN idmap THEN idmap[o] ELSE 0)
IGet == \E s \in Pick(Used) : LET o == slot[s] IN U /\ Log("iget", <<s>>, IF o \in DOMAIN idmap THEN idmap[o] ELSE 0)
IRem == \E s \in Pick(Used) : LET o == slot[s] IN
  /\ idmap' = [k \in DOMAIN idmap \ {o} |-> idmap[k]] /\ stale' = Stale(canon, slot, obj, idmap')
  /\ UNCHANGED <<obj, slot, canon, next>> /\ Log("irem", <<s>>, IF o \in DOMAIN idmap THEN idmap[o] ELSE 0)
ISize == U /\ Log("isize", <<>>, Cardinality(DOMAIN idmap))
Age == \E n \in Pick(1..3) : U /\ Log("age", <<n>>, 0)
Gc == LET live == Live IN
  /\ obj' = [o \in live |-> obj[o]] /\ canon' = [c \in Contents |-> IF canon[c] \in live THEN canon[c] ELSE 0]
  /\ stale' = {} /\ UNCHANGED <<slot, idmap, next>> /\ Log("gc", <<>>, 0)

Rep(x, n) == [i \in 1..n |-> x]
Menu == Rep("new", 10) \o Rep("newstr", 5) \o Rep("literal", 2) \o Rep("intern", 5) \o Rep("streq", 1) \o Rep("copy", 4) \o Rep("drop", 4)
  \o Rep("same", 5) \o Rep("hash", 16) \o Rep("hold", 4) \o Rep("setint", 5) \o Rep("setref", 5) \o Rep("read", 8) \o Rep("loadref", 3)
  \o Rep("clone", 9) \o Rep("iput", 4) \o Rep("iget", 4) \o Rep("irem", 2) \o Rep("isize", 1) \o Rep("age", 4) \o Rep("gc", 5)
Do(op) == CASE op = "new" -> New [] op = "newstr" -> NewStr [] op = "literal" -> Literal [] op = "intern" -> Intern [] op = "streq" -> StrEq
  [] op = "copy" -> Copy [] op = "drop" -> Drop [] op = "same" -> Eq [] op = "hash" -> Hash [] op = "hold" -> HoldsLock
  [] op = "setint" -> SetInt [] op = "setref" -> SetRef [] op = "read" -> Read [] op = "loadref" -> LoadRef [] op = "clone" -> Clone
  [] op = "iput" -> IPut [] op = "iget" -> IGet [] op = "irem" -> IRem [] op = "isize" -> ISize [] op = "age" -> Age [] op = "gc" -> Gc
\* literals exist from the start: ids 1..Cardinality(Lits) (contents 1, 2, ...)
Init == /\ obj = [o \in Lits |-> [kind |-> 9, f |-> <<o>>, hashed |-> FALSE]] /\ slot = [s \in 1..NSlots |-> 0]
        /\ canon = [c \in Contents |-> IF c \in Lits THEN c ELSE 0] /\ idmap = <<>>
        /\ next = Cardinality(Lits) + 1 /\ stale = {} /\ hist = <<>>
Step == /\ ~Record \/ Len(hist) < MaxLen
        /\ IF Record THEN \/ \E c \in 1..6 : \E i \in Pick(1..Len(Menu)) : Do(Menu[i])
                          \/ ISize
           ELSE \E op \in Range1(Menu) : Do(op)
Emit == /\ Record /\ Len(hist) = MaxLen /\ PrintT(ToJson([hist |-> hist]))
        /\ hist' = Append(hist, <<"end", <<>>, 0>>) /\ U
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

TypeOK == (Range1(slot) \cup DOMAIN idmap) \ {0} \subseteq DOMAIN obj
\* a canonical string has the content it stands for, so equal strings intern to the same object
CanonOK == \A c \in Contents : canon[c] # 0 /\ c \notin stale => canon[c] \in DOMAIN obj /\ obj[canon[c]].f = <<c>>
LiteralsStay == \A c \in Lits : canon[c] = c
\* while the program can reach the canonical string it stays the canonical one
CanonStable == [][\A c \in Contents : canon[c] \in Live \ {0} /\ c \notin stale => canon'[c] = canon[c]]_vars
\* an identity hash code, once taken, belongs to the object for good; a clone starts without one
HashStable == [][\A o \in DOMAIN obj \cap DOMAIN obj' : obj[o].hashed => obj'[o].hashed]_vars
=============================================================================
