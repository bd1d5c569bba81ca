------------------------------ MODULE ObjGraph ------------------------------
(* The Java-visible object graph.  A garbage collection (minor, full, or one the
   VM decides on) is a step that changes nothing; everything else follows the
   stores made.  Threads own stacks of frames with three reference locals each.
   Objects are numbered; 0 is null. *)
EXTENDS Common
CONSTANTS Hows, FrameKinds, Threads, Shapes, MaxObj, MaxDepth, NStat, NLoc, VMax, MaxLen, Record, Pick(_)

VARIABLES T,        \* number of threads in this behaviour
          obj,      \* id -> [s: shape, v: int, f: index -> id (non-null entries only)]
          fr,       \* thread -> sequence of frames (sequence of 3 ids)
          stat,     \* static fields
          next, hist
vars == <<T, obj, fr, stat, next, hist>>

\* shapes and the reference slots they have
Idx(s) == CASE s = "P" -> 0..1
            [] s = "Q" -> 0..2
            [] s = "R" -> 0..4
            [] s = "B" -> {0, 1, 15, 29, 30, 31, 32, 33, 34, 48, 61, 62, 63, 64, 65, 68, 69}
            [] s = "A" -> 0..6
            [] s = "M" -> ({0, 1, 2, 30, 31, 32, 33, 100, 511, 512, 998} \cup 60..66)
            [] s = "L" -> ({0, 1, 63, 64, 65, 511, 512, 513, 1023, 1024, 8191, 8192, 8193, 9997, 9998} \cup 30..36 \cup 4093..4099)
            [] s = "I" -> {}
            [] s = "Y" -> {}
ArrayShapes == {"A", "M", "L"}
HasV(s) == s \in {"P", "Q", "R", "B"}

Th == 1..T
Top(t) == fr[t][Len(fr[t])]
Field(o, i) == IF i \in DOMAIN obj[o].f THEN obj[o].f[i] ELSE 0
SetF(f, i, x) == IF x = 0 THEN [j \in (DOMAIN f) \ {i} |-> f[j]] ELSE (i :> x) @@ f
SetLocal(t, k, x) == [fr EXCEPT ![t][Len(fr[t])][k] = x]

Roots == Range1(stat) \cup UNION {UNION {Range1(fr[t][i]) : i \in 1..Len(fr[t])} : t \in Th}
RECURSIVE Reach(_, _)
Reach(seen, todo) == IF todo = {} THEN seen
  ELSE LET nxt == UNION {{obj[o].f[i] : i \in DOMAIN obj[o].f} : o \in todo} \ {0}
       IN Reach(seen \cup todo, nxt \ (seen \cup todo))
Live == Reach({}, Roots \ {0})
Visible(t) == Reach({}, (Range1(stat) \cup Range1(Top(t))) \ {0})   \* what thread t can name right now
Describe(o) == LET ks == SortInts(DOMAIN obj[o].f) IN
  <<o, obj[o].s, obj[o].v>> \o FoldLeft(LAMBDA acc, i : acc \o <<i, obj[o].f[i]>>, <<>>, ks)
DumpSeq(t) == LET l == SortInts(Visible(t)) IN [i \in 1..Len(l) |-> Describe(l[i])]

Log(t, op, args, res) == hist' = IF Record THEN Append(hist, <<t, op, args, res>>) ELSE hist
NoChange == UNCHANGED <<obj, fr, stat, next>>

------------------------------------------------------------------------------
New(t) == \E k \in Pick(1..NLoc), s \in Pick(Shapes) :
   /\ next <= MaxObj
   /\ obj' = (next :> [s |-> s, v |-> 0, f |-> <<>>]) @@ obj
   /\ fr' = SetLocal(t, k, next) /\ next' = next + 1 /\ UNCHANGED stat
   /\ Log(t, "new", <<k, s, next>>, next)
\* how: 1 plain store, 2 reflective store, 3 store through Unsafe / atomic, 4 arraycopy of one element
Set(t) == \E k \in Pick({k \in 1..NLoc : Top(t)[k] # 0}) : LET o == Top(t)[k] IN
   \E i \in Pick(Idx(obj[o].s)), j \in Pick(1..(NLoc + 1)), how \in Pick(Hows) :
   LET x == IF j = NLoc + 1 THEN 0 ELSE Top(t)[j] IN
   /\ obj' = [obj EXCEPT ![o].f = SetF(@, i, x)]
   /\ UNCHANGED <<fr, stat, next>> /\ Log(t, "set", <<k, i, j, how>>, x)
Get(t) == \E k \in Pick({k \in 1..NLoc : Top(t)[k] # 0}) : LET o == Top(t)[k] IN
   \E j \in Pick(1..NLoc), how \in Pick(Hows) :
   \E i \in Pick(IF obj[o].f = <<>> \/ how = 4 THEN Idx(obj[o].s) ELSE DOMAIN obj[o].f) :
   /\ fr' = SetLocal(t, j, Field(o, i))
   /\ UNCHANGED <<obj, stat, next>> /\ Log(t, "get", <<k, i, j>>, Field(o, i))
Move(t) == \E k \in Pick(1..NLoc), j \in Pick(1..NLoc) :
   /\ fr' = SetLocal(t, j, Top(t)[k]) /\ UNCHANGED <<obj, stat, next>> /\ Log(t, "mov", <<k, j>>, Top(t)[k])
Drop(t) == \E k \in Pick(1..NLoc) :
   /\ fr' = SetLocal(t, k, 0) /\ UNCHANGED <<obj, stat, next>> /\ Log(t, "drop", <<k>>, 0)
PutStatic(t) == \E k \in Pick(1..NLoc), s \in Pick(1..NStat) :
   /\ stat' = [stat EXCEPT ![s] = Top(t)[k]] /\ UNCHANGED <<obj, fr, next>> /\ Log(t, "puts", <<k, s>>, Top(t)[k])
GetStatic(t) == \E k \in Pick(1..NLoc), s \in Pick(1..NStat) :
   /\ fr' = SetLocal(t, k, stat[s]) /\ UNCHANGED <<obj, stat, next>> /\ Log(t, "gets", <<s, k>>, stat[s])
SetV(t) == \E k \in Pick({k \in 1..NLoc : Top(t)[k] # 0 /\ HasV(obj[Top(t)[k]].s)}), v \in Pick(1..VMax) :
   /\ obj' = [obj EXCEPT ![Top(t)[k]].v = v] /\ UNCHANGED <<fr, stat, next>> /\ Log(t, "setv", <<k, v>>, v)
\* copy n consecutive slots between small arrays (possibly the same one, overlapping)
Copy(t) == \E k \in Pick({k \in 1..NLoc : Top(t)[k] # 0 /\ obj[Top(t)[k]].s = "A"}),
              j \in Pick({k \in 1..NLoc : Top(t)[k] # 0 /\ obj[Top(t)[k]].s = "A"}),
              a \in Pick(0..3), b \in Pick(0..3), n \in Pick(0..4) :
   LET src == Top(t)[k]
       dst == Top(t)[j]
       f == FoldLeft(LAMBDA acc, i : SetF(acc, b + i - 1, Field(src, a + i - 1)), obj[dst].f, [i \in 1..n |-> i]) IN
   /\ obj' = [obj EXCEPT ![dst].f = f]
   /\ UNCHANGED <<fr, stat, next>> /\ Log(t, "copy", <<k, a, j, b, n>>, 0)
\* one object into several neighbouring elements, by one arraycopy
Base(s) == CASE s = "A" -> {0, 1} [] s = "M" -> {60, 61} [] s = "L" -> {30, 31, 4093, 4094}
Fill(t) == \E k \in Pick({k \in 1..NLoc : Top(t)[k] # 0 /\ obj[Top(t)[k]].s \in ArrayShapes}) :
              \E j \in Pick(1..NLoc), n \in Pick(2..6) :
   LET o == Top(t)[k]  x == Top(t)[j] IN
   \E b \in Pick(Base(obj[o].s)) :
   /\ obj' = [obj EXCEPT ![o].f = FoldLeft(LAMBDA acc, i : SetF(acc, b + i - 1, x), @, [i \in 1..n |-> i])]
   /\ UNCHANGED <<fr, stat, next>> /\ Log(t, "fill", <<k, b, n, j>>, x)
\* clone, then give the copy its own number
Clone(t) == \E k \in Pick({k \in 1..NLoc : Top(t)[k] # 0}), j \in Pick(1..NLoc) :
   LET o == Top(t)[k] IN
   /\ next <= MaxObj /\ o # 0
   /\ obj' = (next :> obj[o]) @@ obj
   /\ fr' = SetLocal(t, j, next) /\ next' = next + 1 /\ UNCHANGED stat
   /\ Log(t, "clone", <<k, j, next>>, next)
\* call a method: the callee's locals are chosen among the caller's
Call(t) == \E kd \in Pick(FrameKinds), a \in Pick(1..NLoc), b \in Pick(1..NLoc), c \in Pick(1..NLoc) :
   /\ Len(fr[t]) < MaxDepth
   /\ fr' = [fr EXCEPT ![t] = Append(@, [i \in 1..NLoc |-> Top(t)[IF i = 1 THEN a ELSE IF i = 2 THEN b ELSE c]])]
   /\ UNCHANGED <<obj, stat, next>> /\ Log(t, "call", <<kd, a, b, c>>, 0)
\* return local k of the callee into local j of the caller
Ret(t) == \E k \in Pick(1..NLoc), j \in Pick(1..NLoc) :
   /\ Len(fr[t]) > 1
   /\ LET x == Top(t)[k]
          g == Sub(fr[t], 1, Len(fr[t]) - 1) IN
      /\ fr' = [fr EXCEPT ![t] = [g EXCEPT ![Len(g)][j] = x]]
      /\ UNCHANGED <<obj, stat, next>> /\ Log(t, "ret", <<k, j>>, [g[Len(g)] EXCEPT ![j] = x])
\* unwind n frames by an exception that carries local k; it lands in local j
Throw(t) == \E k \in Pick(1..NLoc), j \in Pick(1..NLoc), n \in Pick(1..3) :
   /\ Len(fr[t]) > n
   /\ LET x == Top(t)[k]
          g == Sub(fr[t], 1, Len(fr[t]) - n) IN
      /\ fr' = [fr EXCEPT ![t] = [g EXCEPT ![Len(g)][j] = x]]
      /\ UNCHANGED <<obj, stat, next>> /\ Log(t, "throw", <<k, j, n>>, [g[Len(g)] EXCEPT ![j] = x])
Collect(t) == \E w \in Pick(FrameKinds) : NoChange /\ Log(t, "gc", <<w>>, 0)
Dump(t) == NoChange /\ Log(t, "dump", <<>>, IF Record THEN DumpSeq(t) ELSE 0)

------------------------------------------------------------------------------
Rep(x, n) == [i \in 1..n |-> x]
Menu == Rep("new", 16) \o Rep("set", 26) \o Rep("get", 12) \o Rep("mov", 3) \o Rep("drop", 4) \o Rep("puts", 5)
        \o Rep("gets", 4) \o Rep("setv", 3) \o Rep("copy", 5) \o Rep("fill", 6) \o Rep("clone", 3) \o Rep("call", 6) \o Rep("ret", 4)
        \o Rep("throw", 1) \o Rep("gc", 2) \o Rep("dump", 3)
Do(op, t) ==
  CASE op = "new" -> New(t) [] op = "set" -> Set(t) [] op = "get" -> Get(t) [] op = "mov" -> Move(t)
    [] op = "drop" -> Drop(t) [] op = "puts" -> PutStatic(t) [] op = "gets" -> GetStatic(t) [] op = "setv" -> SetV(t)
    [] op = "copy" -> Copy(t) [] op = "fill" -> Fill(t) [] op = "clone" -> Clone(t) [] op = "call" -> Call(t) [] op = "ret" -> Ret(t)
    [] op = "throw" -> Throw(t) [] op = "gc" -> Collect(t) [] op = "dump" -> Dump(t)

Init == /\ T \in Threads /\ obj = <<>> /\ fr = [t \in 1..T |-> <<[i \in 1..NLoc |-> 0]>>]
        /\ stat = [i \in 1..NStat |-> 0] /\ next = 1 /\ hist = <<>>

\* several candidate operations are drawn, so that one that is not enabled here does not end the behaviour
Step == /\ ~Record \/ Len(hist) < MaxLen
        /\ UNCHANGED T
        /\ \E t \in Pick(Th) :
             IF Record
             THEN \/ \E c \in {1, 2, 3, 4, 5} : \E i \in Pick(1..Len(Menu)) : Do(Menu[i], t)
                  \/ Collect(t)
             ELSE \E op \in Range1(Menu) : Do(op, t)

\* at the end every thread returns out of all its frames, then everything is dumped
Unwind == /\ Record /\ Len(hist) >= MaxLen
          /\ \E t \in Th : /\ Len(fr[t]) > 1 /\ \A u \in 1..(t - 1) : Len(fr[u]) = 1
                         /\ LET x == Top(t)[1]
                                g == Sub(fr[t], 1, Len(fr[t]) - 1) IN
                            /\ fr' = [fr EXCEPT ![t] = [g EXCEPT ![Len(g)][2] = x]]
                            /\ Log(t, "ret", <<1, 2>>, [g[Len(g)] EXCEPT ![2] = x])
          /\ UNCHANGED <<T, obj, stat, next>>
Emit == /\ Record /\ Len(hist) >= MaxLen /\ \A t \in Th : Len(fr[t]) = 1
        /\ Len(hist) = 0 \/ hist[Len(hist)][1] # 0
        /\ PrintT(ToJson([T |-> T, hist |-> hist \o [t \in Th |-> <<t, "dump", <<>>, DumpSeq(t)>>]]))
        /\ hist' = Append(hist, <<0, "end", <<>>, 0>>)
        /\ UNCHANGED <<T, obj, fr, stat, next>>
Next == Step \/ Unwind \/ Emit
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
TypeOK == /\ \A o \in DOMAIN obj : \A i \in DOMAIN obj[o].f : obj[o].f[i] \in DOMAIN obj
          /\ Roots \ {0} \subseteq DOMAIN obj
          /\ Live \subseteq 1..(next - 1)
\* only the operations on an object change it, collections change nothing
LiveUnchanged == [][\A o \in Live \cap DOMAIN obj' : obj'[o] # obj[o] =>
                      \E t \in Th : o \in Range1(Top(t))]_vars
\* no object comes back from the dead
NoResurrection == [][(Live' \cap DOMAIN obj) \subseteq Live]_vars
=============================================================================
