----------------------------- MODULE Collector -----------------------------
(* Design of the two-generation collector (src/heap/heap.cpp) as seen through
   its interface: movable objects age from the nursery through gen1 to gen2,
   pinned ("fixie") objects age in place; a minor collection does not trace
   through tenured objects but starts from the slots the write barrier
   remembered; a major collection traces everything.  Objects that asked for
   their identity hash grow by one word when they move.  Numbers: 0 is null. *)
EXTENDS Common
CONSTANTS Shapes, MaxObj, NRoots, TenureAge, FixTenureAge, MaxLen, Record, Barrier, Pick(_)

VARIABLES obj,      \* id -> [s, g ("new", "gen1", "gen2", "fix"), age, h (hash taken), f: slot -> id]
          root,     \* sequence of ids
          rem,      \* remembered slots <<id, slot>>
          freed,    \* ids whose memory is gone
          next, hist
vars == <<obj, root, rem, freed, next, hist>>

Fixed(s) == s \in {"F", "G", "p"}
Slots(s) == CASE s = "T" -> 0..1
              [] s = "S" -> 0..4
              [] s = "M" -> {0, 1, 2, 30, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66}
              [] s = "L" -> {0, 1, 2, 59, 60, 61, 62, 63, 124, 125, 126, 127, 188, 189, 190, 191, 598, 599}
              [] s = "F" -> 0..2
              [] s = "G" -> {0, 1, 31, 32, 59, 60, 61, 62, 63, 64, 125, 126, 127, 128, 510, 511, 1030, 1031}
              [] s = "Z" -> {}
              [] s \in {"x", "p"} -> {0}       \* used when the design is checked exhaustively
Field(o, i) == IF i \in DOMAIN obj[o].f THEN obj[o].f[i] ELSE 0
SetF(f, i, x) == IF x = 0 THEN [j \in (DOMAIN f) \ {i} |-> f[j]] ELSE (i :> x) @@ f
Kids(o) == {obj[o].f[i] : i \in DOMAIN obj[o].f}
RECURSIVE Reach(_, _, _)
\* everything reachable from todo without passing through objects in stop
Reach(seen, todo, stop) == IF todo = {} THEN seen
  ELSE LET nxt == UNION {Kids(o) : o \in todo \ stop}
       IN Reach(seen \cup todo, nxt \ (seen \cup todo), stop)
RootSet == Range1(root) \ {0}
Live == Reach({}, RootSet, {})
Tenured(o) == \/ obj[o].g = "gen2"
              \/ obj[o].g = "fix" /\ obj[o].age >= FixTenureAge
TenuredSet == {o \in DOMAIN obj : Tenured(o)}
Describe(o) == LET ks == SortInts(DOMAIN obj[o].f) IN
  <<o, obj[o].s>> \o FoldLeft(LAMBDA acc, i : acc \o <<i, obj[o].f[i]>>, <<>>, ks)
DumpSeq == LET l == SortInts(Live) IN [i \in 1..Len(l) |-> Describe(l[i])]
Log(op, args, res) == hist' = IF Record THEN Append(hist, <<op, args, res>>) ELSE hist
Named == DOMAIN obj \cap Live     \* the mutator can only touch what it can reach

------------------------------------------------------------------------------
New == \E s \in Pick(Shapes), r \in Pick(1..NRoots) :
   /\ next <= MaxObj
   /\ obj' = (next :> [s |-> s, g |-> IF Fixed(s) THEN "fix" ELSE "new", age |-> 0, h |-> FALSE, f |-> <<>>]) @@ obj
   /\ root' = [root EXCEPT ![r] = next] /\ next' = next + 1
   /\ UNCHANGED <<rem, freed>> /\ Log("new", <<r, s, next>>, 0)
\* store into any reachable object; n consecutive slots can be marked by one call
Store == \E o \in Pick(Named), x \in Pick(Named \cup {0}) : \E i \in Pick(Slots(obj[o].s)) :
   /\ obj' = [obj EXCEPT ![o].f = SetF(@, i, x)]
   /\ rem' = IF Barrier /\ Tenured(o) /\ x # 0 /\ ~Tenured(x) THEN rem \cup {<<o, i>>} ELSE rem
   /\ UNCHANGED <<root, freed, next>> /\ Log("store", <<o, i, x>>, 0)
SetRoot == \E r \in Pick(1..NRoots), x \in Pick(Named \cup {0}) :
   /\ root' = [root EXCEPT ![r] = x] /\ UNCHANGED <<obj, rem, freed, next>> /\ Log("root", <<r, x>>, 0)
\* (the hash plays no role in the design; it matters in the replay)
Hash == Record /\ \E o \in Pick({o \in Named : ~obj[o].h}) :
   /\ obj' = [obj EXCEPT ![o].h = TRUE] /\ UNCHANGED <<root, rem, freed, next>> /\ Log("hash", <<o>>, 0)

Aged(o) == LET a == obj[o] IN
  CASE a.g = "new" -> [a EXCEPT !.g = "gen1", !.age = 0]
    [] a.g = "gen1" /\ a.age < TenureAge -> [a EXCEPT !.age = @ + 1]
    [] a.g = "gen1" -> [a EXCEPT !.g = "gen2"]
    [] a.g = "gen2" -> a
    [] a.g = "fix" -> [a EXCEPT !.age = Min2(@ + 1, FixTenureAge)]
Collect(minor) ==
  LET old == TenuredSet
      start == RootSet \cup (IF minor THEN {Field(p[1], p[2]) : p \in rem} \ {0} ELSE {})
      keep == IF minor THEN old \cup Reach({}, start, old) ELSE Live
  IN /\ obj' = [o \in keep |-> IF minor /\ o \in old THEN obj[o] ELSE Aged(o)]
     /\ rem' = {<<o, i>> \in UNION {{o} \X DOMAIN obj[o].f : o \in {p \in keep : p \in DOMAIN obj' /\ Tenured(p)'}} :
                   /\ obj[o].f[i] \in DOMAIN obj' /\ ~ Tenured(obj[o].f[i])'
                   /\ (minor /\ o \in old => <<o, i>> \in rem)}
     /\ freed' = freed \cup (DOMAIN obj \ keep)
     /\ UNCHANGED <<root, next>>
     /\ Log("gc", <<IF minor THEN 0 ELSE 1, IF Record THEN SortInts(Live) ELSE 0>>, "ok")
Minor == Collect(TRUE)
Major == Collect(FALSE)
Dump == UNCHANGED <<obj, root, rem, freed, next>> /\ Log("dump", <<>>, IF Record THEN DumpSeq ELSE 0)

------------------------------------------------------------------------------
Rep(x, n) == [i \in 1..n |-> x]
Menu == Rep("new", 20) \o Rep("store", 40) \o Rep("root", 8) \o Rep("hash", 4) \o Rep("minor", 14) \o Rep("major", 3) \o Rep("dump", 4)
Do(op) == CASE op = "new" -> New [] op = "store" -> Store [] op = "root" -> SetRoot [] op = "hash" -> Hash
            [] op = "minor" -> Minor [] op = "major" -> Major [] op = "dump" -> Dump
Init == obj = <<>> /\ root = [i \in 1..NRoots |-> 0] /\ rem = {} /\ freed = {} /\ next = 1 /\ hist = <<>>
Step == /\ ~Record \/ Len(hist) < MaxLen
        /\ IF Record THEN \/ \E c \in 1..6 : \E i \in Pick(1..Len(Menu)) : Do(Menu[i])
                          \/ Dump
           ELSE \E op \in Range1(Menu) : Do(op)
Emit == /\ Record /\ Len(hist) = MaxLen
        /\ PrintT(ToJson([hist |-> Append(hist, <<"dump", <<>>, DumpSeq>>)]))
        /\ hist' = Append(hist, <<"end", <<>>, 0>>)
        /\ UNCHANGED <<obj, root, rem, freed, next>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* nothing reachable is ever freed, and no kept slot refers to freed memory
NoneLost == RootSet \subseteq DOMAIN obj /\ Live \cap freed = {}
\* tenured garbage may keep slots whose targets are gone only if those targets are gone too
RememberedComplete == \A o \in TenuredSet : \A i \in DOMAIN obj[o].f :
                         obj[o].f[i] \in DOMAIN obj /\ ~Tenured(obj[o].f[i]) => <<o, i>> \in rem
NoDangling == \A o \in DOMAIN obj : Kids(o) \subseteq DOMAIN obj
\* a major collection leaves exactly the reachable objects
MajorExact == [][Major => DOMAIN obj' = Live]_vars
=============================================================================
