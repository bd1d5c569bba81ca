-------------------------------- MODULE Refs --------------------------------
(* Reference objects, reference queues, finalizers and WeakHashMap.
   An object is dead for the references when it cannot be reached strongly.
   Between the moment it becomes unreachable and the next full collection
   ("limbo") a minor collection may already have cleared references and run
   finalizers, so nothing is required there; Settle is a full collection
   followed by the finalizers it started, repeated until nothing changes. *)
EXTENDS Common
CONSTANTS Fins, Kinds, NRoots, NRefs, NQueues, MaxObj, MaxLen, Record, Pick(_)

VARIABLES obj,    \* id -> [fin: 0 none, 1 plain, 2 resurrects, 3 throws; done; f: two fields]
          root,   \* strong roots
          res,    \* objects made strong again by their finalizer
          refs,   \* number -> [k: kind, t: target or 0, q: queue or 0, held: still referenced by the program]
          queue,  \* queue -> set of reference numbers on it
          maybe,  \* references that were dropped and whose target died: they may or may not be delivered
          slot,   \* reference table
          wm,     \* WeakHashMap: key id -> value
          next, nref, fresh, hist
vars == <<obj, root, res, refs, queue, maybe, slot, wm, next, nref, fresh, hist>>

RECURSIVE Reach(_, _)
Reach(seen, todo) == IF todo = {} THEN seen
  ELSE LET nxt == UNION {Range1(obj[o].f) : o \in todo} \ {0} IN Reach(seen \cup todo, nxt \ (seen \cup todo))
Live == Reach({}, (Range1(root) \cup res) \ {0})
Limbo == DOMAIN obj \ Live
NoLimbo == \A r \in DOMAIN refs : refs[r].t \in Live \cup {0}
Log(op, args, r) == hist' = IF Record THEN Append(hist, <<op, args, r>>) ELSE hist
U == UNCHANGED <<obj, root, res, refs, queue, maybe, slot, wm, next, nref>>
Dirty == fresh' = FALSE
Same == fresh' = fresh
Unspec == -999   \* nothing is required of this result

------------------------------------------------------------------------------
New == \E r \in Pick(1..NRoots), fin \in Pick(Fins) :
  /\ next <= MaxObj
  /\ obj' = (next :> [fin |-> fin, done |-> FALSE, f |-> <<0, 0>>]) @@ obj
  /\ root' = [root EXCEPT ![r] = next] /\ next' = next + 1 /\ Dirty
  /\ UNCHANGED <<res, refs, queue, maybe, slot, wm, nref>> /\ Log("new", <<r, fin, next>>, 0)
LiveRoots == {r \in 1..NRoots : root[r] # 0}
Link == \E r \in Pick(LiveRoots), i \in Pick(IF Record THEN {1, 2} ELSE {1}), s \in Pick(1..NRoots) :
  /\ obj' = [obj EXCEPT ![root[r]].f[i] = root[s]] /\ Dirty
  /\ UNCHANGED <<root, res, refs, queue, maybe, slot, wm, next, nref>> /\ Log("link", <<r, i, s>>, 0)
Load == \E r \in Pick(LiveRoots), i \in Pick(IF Record THEN {1, 2} ELSE {1}), s \in Pick(1..NRoots) :
  /\ root' = [root EXCEPT ![s] = obj[root[r]].f[i]] /\ Dirty
  /\ UNCHANGED <<obj, res, refs, queue, maybe, slot, wm, next, nref>> /\ Log("load", <<r, i, s>>, obj[root[r]].f[i])
Drop == \E r \in Pick(LiveRoots) :
  /\ root' = [root EXCEPT ![r] = 0] /\ Dirty
  /\ UNCHANGED <<obj, res, refs, queue, maybe, slot, wm, next, nref>> /\ Log("drop", <<r>>, 0)
\* take a resurrected object back (it stays where its finalizer put it until then)
TakeRes == \E o \in Pick(res), r \in Pick(1..NRoots) :
  /\ root' = [root EXCEPT ![r] = o] /\ res' = res \ {o} /\ Dirty
  /\ UNCHANGED <<obj, refs, queue, maybe, slot, wm, next, nref>> /\ Log("takeres", <<o, r>>, o)
\* overwriting a slot of the table drops the reference that was there
Unheld(k) == IF slot[k] = 0 \/ slot[k] \notin DOMAIN refs THEN refs ELSE [refs EXCEPT ![slot[k]].held = FALSE]
NewRef == \E k \in Pick(1..NRefs), kd \in Pick(Kinds), r \in Pick(LiveRoots), q \in Pick(0..NQueues) :
  /\ refs' = (nref :> [k |-> kd, t |-> root[r], q |-> q, held |-> TRUE]) @@ Unheld(k)
  /\ slot' = [slot EXCEPT ![k] = nref] /\ nref' = nref + 1 /\ Dirty
  /\ UNCHANGED <<obj, root, res, queue, maybe, wm, next>> /\ Log("newref", <<k, kd, r, q, nref>>, 0)
DropRef == \E k \in Pick({k \in 1..NRefs : slot[k] # 0}) :
  /\ refs' = Unheld(k) /\ slot' = [slot EXCEPT ![k] = 0] /\ Dirty
  /\ UNCHANGED <<obj, root, res, queue, maybe, wm, next, nref>> /\ Log("dropref", <<k>>, 0)
HeldSlots == {k \in 1..NRefs : slot[k] # 0}
Get == \E k \in Pick(HeldSlots) : LET r == refs[slot[k]] IN
  /\ U /\ Same
  /\ Log("get", <<k>>, IF r.k = "phantom" THEN 0 ELSE IF r.t \in Live \cup {0} THEN r.t ELSE Unspec)
Clear == \E k \in Pick({k \in HeldSlots : refs[slot[k]].t \in Live \cup {0}}) :
  /\ refs' = [refs EXCEPT ![slot[k]].t = 0] /\ Same
  /\ UNCHANGED <<obj, root, res, queue, maybe, slot, wm, next, nref>> /\ Log("clear", <<k>>, 0)
Enqueue == \E k \in Pick({k \in HeldSlots : refs[slot[k]].t \in Live \cup {0}}) : LET n == slot[k]
                                                                         q == refs[n].q IN
  /\ refs' = [refs EXCEPT ![n].q = 0]
  /\ queue' = IF q = 0 THEN queue ELSE [queue EXCEPT ![q] = @ \cup {n}]
  /\ Same
  /\ UNCHANGED <<obj, root, res, maybe, slot, wm, next, nref>> /\ Log("enqueue", <<k>>, q # 0)
Drain == \E q \in Pick(1..NQueues) :
  LET m == (maybe \cup {n \in DOMAIN refs : ~refs[n].held /\ refs[n].q = q /\ refs[n].t \in Limbo}) \ queue[q] IN
  /\ \A n \in DOMAIN refs : refs[n].held /\ refs[n].q = q => refs[n].t \in Live \cup {0}
  /\ queue' = [queue EXCEPT ![q] = {}] /\ Same
  /\ UNCHANGED <<obj, root, res, refs, maybe, slot, wm, next, nref>>
  /\ Log("drain", <<q, IF Record THEN SortInts(m) ELSE 0>>, IF Record THEN SortInts(queue[q]) ELSE 0)

WPut == \E r \in Pick(LiveRoots), v \in Pick(IF Record THEN 1..9 ELSE {1}) : LET o == root[r] IN
  /\ wm' = (o :> v) @@ wm /\ Same
  /\ UNCHANGED <<obj, root, res, refs, queue, maybe, slot, next, nref>>
  /\ Log("wput", <<r, v>>, IF o \in DOMAIN wm THEN wm[o] ELSE 0)
WGet == \E r \in Pick(LiveRoots) : LET o == root[r] IN
  U /\ Same /\ Log("wget", <<r>>, IF o \in DOMAIN wm THEN wm[o] ELSE 0)
WRem == \E r \in Pick(LiveRoots) : LET o == root[r] IN
  /\ wm' = [k \in DOMAIN wm \ {o} |-> wm[k]] /\ Same
  /\ UNCHANGED <<obj, root, res, refs, queue, maybe, slot, next, nref>>
  /\ Log("wrem", <<r>>, IF o \in DOMAIN wm THEN wm[o] ELSE 0)
WLimbo == DOMAIN wm \ Live # {}
WSize == U /\ Same /\ Log("wsize", <<>>, IF WLimbo THEN Unspec ELSE Cardinality(DOMAIN wm))
WKeys == U /\ Same /\ Log("wkeys", <<>>, IF WLimbo THEN Unspec ELSE IF Record
            THEN LET ks == SortInts(DOMAIN wm) IN [i \in 1..Len(ks) |-> <<ks[i], wm[ks[i]]>>] ELSE 0)

Age == \E n \in Pick(1..4) : U /\ Same /\ Log("age", <<n>>, 0)

Settle ==
  LET live == Live
      dead == DOMAIN obj \ live
      F == {o \in dead : obj[o].fin > 0 /\ ~obj[o].done}
      res2 == res \cup {o \in F : obj[o].fin = 2}
      live2 == Reach({}, (Range1(root) \cup res2) \ {0})
      gone == F \cup (dead \ live2)                       \* what references lose
      hit == {n \in DOMAIN refs : refs[n].t \in gone}
      \* the order in which a resurrecting finalizer and the finalizers of what it brings back run is not specified
      tangled == \E o \in F : obj[o].fin = 2 /\ \E p \in (Reach({}, {o}) \ {o}) \cap dead : obj[p].fin > 0
      \* nor is whether references to what a finalizer brings back are cleared first
      unsure == (dead \cap live2) \ F
  IN /\ ~tangled
     /\ unsure \cap ({refs[n].t : n \in DOMAIN refs} \cup DOMAIN wm) = {}
     /\ res' = res2
     /\ obj' = [o \in live2 |-> IF o \in F THEN [obj[o] EXCEPT !.done = TRUE] ELSE obj[o]]
     /\ refs' = [n \in {n \in DOMAIN refs : refs[n].held} |-> IF n \in hit THEN [refs[n] EXCEPT !.t = 0, !.q = 0] ELSE refs[n]]
     /\ queue' = [q \in 1..NQueues |-> queue[q] \cup {n \in hit : refs[n].held /\ refs[n].q = q}]
     /\ maybe' = maybe \cup {n \in hit : ~refs[n].held /\ refs[n].q # 0}
     /\ wm' = [k \in DOMAIN wm \ gone |-> wm[k]]
     /\ fresh' = TRUE
     /\ UNCHANGED <<root, slot, next, nref>>
     /\ Log("gc", <<IF Record THEN Cardinality(F) ELSE 0>>,
            IF Record THEN LET s == SortInts(F) IN [i \in 1..Len(s) |-> <<s[i], obj[s[i]].f[1], obj[s[i]].f[2]>>] ELSE 0)

------------------------------------------------------------------------------
Rep(x, n) == [i \in 1..n |-> x]
Menu == Rep("new", 12) \o Rep("link", 8) \o Rep("load", 3) \o Rep("drop", 9) \o Rep("takeres", 2) \o Rep("newref", 14)
        \o Rep("dropref", 3) \o Rep("get", 8) \o Rep("clear", 2) \o Rep("enqueue", 3) \o Rep("drain", 8) \o Rep("wput", 6)
        \o Rep("wget", 3) \o Rep("wrem", 2) \o Rep("wsize", 3) \o Rep("wkeys", 3) \o Rep("age", 4) \o Rep("gc", 7)
Do(op) == CASE op = "new" -> New [] op = "link" -> Link [] op = "load" -> Load [] op = "drop" -> Drop [] op = "takeres" -> TakeRes
  [] op = "newref" -> NewRef [] op = "dropref" -> DropRef [] op = "get" -> Get [] op = "clear" -> Clear [] op = "enqueue" -> Enqueue
  [] op = "drain" -> Drain [] op = "wput" -> WPut [] op = "wget" -> WGet [] op = "wrem" -> WRem [] op = "wsize" -> WSize
  [] op = "wkeys" -> WKeys [] op = "age" -> Age [] op = "gc" -> Settle
Init == /\ obj = <<>> /\ root = [i \in 1..NRoots |-> 0] /\ res = {} /\ refs = <<>> /\ queue = [q \in 1..NQueues |-> {}]
        /\ maybe = {} /\ slot = [k \in 1..NRefs |-> 0] /\ wm = <<>> /\ next = 1 /\ nref = 1 /\ fresh = TRUE /\ hist = <<>>
Step == /\ ~Record \/ Len(hist) < MaxLen
        /\ IF Record THEN \/ \E c \in 1..8 : \E i \in Pick(1..Len(Menu)) : Do(Menu[i])
                          \/ Age
           ELSE \E op \in Range1(Menu) : Do(op)
Emit == /\ Record /\ Len(hist) = MaxLen /\ PrintT(ToJson([hist |-> hist]))
        /\ hist' = Append(hist, <<"end", <<>>, 0>>) /\ U /\ Same
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
Bound == nref <= 2

------------------------------------------------------------------------------
TypeOK == /\ (Range1(root) \cup res) \ {0} \subseteq DOMAIN obj
          /\ \A o \in DOMAIN obj : Range1(obj[o].f) \ {0} \subseteq DOMAIN obj
          /\ \A k \in HeldSlots : slot[k] \in DOMAIN refs /\ refs[slot[k]].held
\* a reference is on at most one queue, and its own queue field is empty then
OnceQueued == \A q \in 1..NQueues : \A n \in queue[q] : n \in DOMAIN refs => refs[n].q = 0
\* right after a full collection nothing held refers to something dead
SettledClean == fresh => NoLimbo /\ DOMAIN wm \subseteq Live
\* a collection never clears or enqueues a reference to something live
NeverEarly == [][Settle => \A n \in DOMAIN refs : refs[n].held /\ refs[n].t \in Live => refs'[n] = refs[n]]_vars
FinalizedOnce == [][\A o \in DOMAIN obj : obj[o].done => (o \in DOMAIN obj' => obj'[o].done)]_vars
=============================================================================
