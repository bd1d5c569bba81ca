----------------------------- MODULE Concurrent -----------------------------
(* Concurrent objects of the class library. Apply gives what one operation may
   do to the object, taken alone. A history of calls and returns is explained
   when some order of the operations, each between its call and its return,
   gives the results seen: Track follows all such orders at once.
   A result is an integer: null -1, false 0, true 1, timeout -2, not enough
   space -3, failure of the task -4, cancelled -5. *)
EXTENDS Common
CONSTANTS Threads, MaxOps, MaxSteps, Kinds, Record, Pick(_), PickSeq(_, _)
VARIABLES kind, par, prog, obj, status, pc, configs, done
vars == <<kind, par, prog, obj, status, pc, configs, done>>

B(x) == IF x THEN 1 ELSE 0
Zero == -1
HeadOr(s) == IF s = <<>> THEN -1 ELSE Head(s)
TailOr(s) == IF s = <<>> THEN <<>> ELSE Tail(s)
First(s, x) == IF x \in Range1(s) THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x ELSE 0
Without(s, i) == Sub(s, 1, i - 1) \o Sub(s, i + 1, Len(s))
Digits(s) == FoldLeft(LAMBDA a, x : a * 10 + x, 0, s)
D(s, r) == {<<s, "done", r>>}
\* ---- operations on one object: <<state, how, result>>
Cell(s, op) ==
  LET o == op[1] IN
  CASE o = "get" -> D(s, s) [] o = "set" -> D(op[2], 1) [] o = "gas" -> D(op[2], s)
    [] o = "cas" -> D(IF s = op[2] THEN op[3] ELSE s, B(s = op[2]))
    [] o = "gaa" -> D(s + op[2], s) [] OTHER -> D(s + op[2], s + op[2])
Queue(s, op, cap) ==
  LET o == op[1] IN
  CASE o = "add" -> D(Append(s, op[2]), 1)
    [] o = "poll" -> D(TailOr(s), HeadOr(s))
    [] o = "peek" -> D(s, HeadOr(s))
    [] o = "offer" -> IF Len(s) < cap THEN D(Append(s, op[2]), 1) ELSE D(s, 0)
    [] o = "put" -> IF Len(s) < cap THEN D(Append(s, op[2]), 1) ELSE {}
    [] o = "take" -> IF s # <<>> THEN D(Tail(s), Head(s)) ELSE {}
    \* short timeouts: giving up is right only while the queue is full (empty)
    [] o = "offerT" -> IF Len(s) < cap THEN D(Append(s, op[2]), 1) ELSE D(s, 0)
    [] o = "pollT" -> IF s # <<>> THEN D(Tail(s), Head(s)) ELSE D(s, -1)
    [] o = "size" -> D(s, Len(s)) [] o = "room" -> D(s, cap - Len(s))
    [] o = "has" -> D(s, B(op[2] \in Range1(s)))
    [] o = "del" -> IF op[2] \in Range1(s) THEN D(Without(s, First(s, op[2])), 1) ELSE D(s, 0)
    [] o = "drain" -> D(Sub(s, 5, Len(s)), Digits(Sub(s, 1, Min2(4, Len(s)))))
    [] o = "clear" -> D(<<>>, 1)
    [] o = "all" -> IF Len(s) + 2 > cap THEN D(s, -3) ELSE D(s \o <<op[2], op[3]>>, 1)
    \* waits until the queue is full, then empties it
    [] o \in {"clearFull", "drainFull"} -> IF Len(s) = cap THEN D(<<>>, 1) ELSE {}
    \* likewise, but only one element goes
    [] o \in {"drain1Full", "delFull", "pollFull"} -> IF Len(s) = cap THEN D(Tail(s), 1) ELSE {}
Map(s, op) ==
  LET o == op[1] k == op[2] v == s[k]
      W(x) == [s EXCEPT ![k] = x] IN
  CASE o = "put" -> D(W(op[3]), v) [] o = "get" -> D(s, v) [] o = "has" -> D(s, B(v # -1))
    [] o = "pia" -> D(IF v = -1 THEN W(op[3]) ELSE s, v)
    [] o = "rep" -> D(IF v # -1 THEN W(op[3]) ELSE s, v)
    [] o = "rep3" -> D(IF v = op[3] THEN W(op[4]) ELSE s, B(v = op[3]))
    [] o = "rem" -> D(W(-1), v)
    [] o = "rem2" -> D(IF v = op[3] THEN W(-1) ELSE s, B(v = op[3]))
    [] o = "size" -> D(s, Cardinality({i \in DOMAIN s : s[i] # -1}))
    [] o = "snap" -> D(s, FoldLeft(LAMBDA a, x : a * 10 + Max2(x, 0), 0, s))
    [] o = "khas" -> D(s, B(v # -1)) [] o = "kdel" -> D(W(-1), B(v # -1))
    [] o = "vhas" -> D(s, B(op[3] \in Range1(s)))
    [] OTHER -> D([i \in DOMAIN s |-> -1], 1)
\* running takes two steps; result 7 or a failure
Outcome(s) == CASE s[1] = "done" -> IF s[2] = 1 THEN -4 ELSE 7 [] OTHER -> -5
Task(s, op, mid) ==
  LET o == op[1] fin == s[1] \in {"done", "cancelled"} IN
  CASE o = "run" -> IF mid THEN D(IF s[1] = "running" THEN <<"done", s[2]>> ELSE s, 1)
                    ELSE IF s[1] = "new" THEN {<< <<"running", s[2]>>, "mid", 1>>} ELSE D(s, 1)
    [] o = "get" -> IF fin THEN D(s, Outcome(s)) ELSE {}
    [] o = "getT" -> IF fin THEN D(s, Outcome(s)) ELSE D(s, -2)
    [] o = "cancel" -> IF s[1] = "new" THEN D(<<"cancelled", s[2]>>, 1)
                       ELSE IF s[1] = "running" THEN D(s, 0) \cup D(<<"cancelled", s[2]>>, 1) ELSE D(s, 0)
    [] o = "isDone" -> D(s, B(fin)) [] OTHER -> D(s, B(s[1] = "cancelled"))
Apply(k, p, s, op, mid) ==
  CASE k \in {"int", "long", "ref", "bool"} -> Cell(s, op)
    [] k = "arr" -> {<<[s EXCEPT ![op[4]] = x[1]], x[2], x[3]>> : x \in Cell(s[op[4]], op)}
    [] k = "clq" -> Queue(s, op, 1000)
    [] k = "map" -> Map(s, op)
    [] k = "task" -> Task(s, op, mid)
    [] OTHER -> Queue(s, op, p)
Start(k, p) ==
  CASE k \in {"int", "long", "ref", "bool"} -> 0 [] k = "arr" -> <<0, 0>> [] k = "map" -> <<-1, -1, -1, -1, -1, -1>> [] k = "task" -> <<"new", p>> [] OTHER -> <<>>
\* ---- following all explanations of a history
Idle == [w |-> "idle", op |-> <<>>, r |-> 0]
Start0(k, p, T) == {[s |-> Start(k, p), a |-> [t \in T |-> Idle]]}
Lins(k, p, c) == UNION {IF c.a[t].w \in {"pend", "mid"}
                        THEN {[s |-> x[1], a |-> [c.a EXCEPT ![t] = [@ EXCEPT !.w = x[2], !.r = x[3]]]] : x \in Apply(k, p, c.s, c.a[t].op, c.a[t].w = "mid")}
                        ELSE {} : t \in DOMAIN c.a}
RECURSIVE Closure(_, _, _, _)
Closure(k, p, C, new) == LET n2 == (UNION {Lins(k, p, c) : c \in new}) \ C IN IF n2 = {} THEN C ELSE Closure(k, p, C \cup n2, n2)
Call(C, t, op) == {[c EXCEPT !.a[t] = [w |-> "pend", op |-> op, r |-> 0]] : c \in C}
Return(k, p, C, t, r) == {[c EXCEPT !.a[t] = Idle] : c \in {x \in Closure(k, p, C, C) : x.a[t].w = "done" /\ x.a[t].r = r}}
\* ---- programs of the threads, such that every schedule lets them finish
V == IF Record THEN 1..9 ELSE {1}
S == IF Record THEN 0..3 ELSE {0, 1}
CellOps == {<<"get">>} \cup {<<o, v>> : o \in {"set", "gas"}, v \in S} \cup {<<"cas", a, b>> : a, b \in S}
Ops(k) ==
  CASE k \in {"int", "long"} -> CellOps \cup {<<o, d>> : o \in {"gaa", "aag"}, d \in {-1, 1, 2}}
    [] k = "ref" -> CellOps
    [] k = "bool" -> {<<"get">>} \cup {<<o, v>> : o \in {"set", "gas"}, v \in {0, 1}} \cup {<<"cas", a, b>> : a, b \in {0, 1}}
    [] k = "arr" -> {<<o, a, b, i>> : o \in {"get", "set", "gas", "cas", "cas"}, a, b \in S, i \in 1..2}
    [] k = "clq" -> {<<"add", v>> : v \in V} \cup {<<o, v>> : o \in {"poll", "peek"}, v \in V}
    [] k = "map" -> {<<o, q, a, b>> : o \in {"put", "put2", "put3", "put4", "pia2", "get", "has", "pia", "rep", "rep3", "rem", "rem2", "size", "snap", "khas", "kdel", "vhas", "wipe"} \ (IF Record THEN {} ELSE {"put2", "put3", "put4", "pia2", "rep", "snap", "kdel"}), q \in (IF Record THEN 1..6 ELSE {1, 3}), a, b \in IF Record THEN 1..3 ELSE {1}} 
    [] k = "lbq" -> {<<o, v>> : o \in {"offer", "add1", "offerT", "del", "has"}, v \in V} \cup {<<o, v>> : o \in {"poll", "peek", "pollT", "size", "room", "drain"}, v \in V} \cup {<<"clear", 0>>} \cup {<<"all", v, w>> : v \in V, w \in {1, 5}}
    [] k = "task" -> {<<o, i>> : o \in {"get", "getT", "cancel", "cancel2", "isDone", "isCancelled", "run"}, i \in 1..1}
    [] OTHER -> {}
Norm(op) == CASE op[1] \in {"put2", "put3", "put4"} -> <<"put">> \o Tail(op) [] op[1] = "pia2" -> <<"pia">> \o Tail(op) [] op[1] = "add1" -> <<"offer", op[2]>> [] op[1] = "cancel2" -> <<"cancel", 1>> [] OTHER -> op
Draw(k, m) == TLCEval([i \in 1..m |-> Norm(RandomElement(Ops(k)))])
Free(k) == TLCEval([t \in Threads |-> Draw(k, RandomElement(1..MaxOps))])
\* producers and consumers of as many values
Vals(m) == TLCEval([i \in 1..m |-> RandomElement(V)])
Moves(cap) ==
  LET m == TLCEval(RandomElement(1..MaxOps)) v == Vals(m) w == Vals(m)
      P(x) == [i \in 1..m |-> <<RandomElement({"put", "put", "offerL"}), x[i]>>]
      C(q) == [i \in 1..q |-> <<RandomElement({"take", "take", "pollL"}), 0>>] IN
  CASE RandomElement(1..4) = 1 -> <<P(v), C(m), P(w), C(m)>>
    [] RandomElement(1..2) = 1 -> <<[i \in 1..(cap + 1) |-> <<"put", 3>>], << <<RandomElement({"clearFull", "drainFull", "drain1Full", "delFull", "pollFull"}), 0>> >>, <<>>, <<>>>>
    [] RandomElement(1..2) = 1 -> <<P(v), C(m), <<>>, <<>>>>
    [] OTHER -> <<P(v), P(w), C(m), C(m)>>
Bulk == << << <<"all", 4, 5>> >>, << <<"take", 0>>, <<"take", 0>> >>, <<>>, <<>>>>
Bulk2 == << << <<"all", 4, 5>> >>, << <<"take", 0>> >>, << <<"take", 0>> >>, <<>>>>
Program(k, p) ==
  CASE k = "move" -> TLCEval(Moves(p)) [] k = "bulk" -> TLCEval(IF RandomElement({1, 2}) = 1 THEN Bulk ELSE Bulk2)
    [] k = "task" -> TLCEval([Free(k) EXCEPT ![1] = << <<"run", 1>> >> \o @])
    [] OTHER -> Free(k)
\* the long timed waits of a program that lets them finish are as good as the untimed ones
Plain(op) == IF op[1] = "offerL" THEN <<"put", op[2]>> ELSE IF op[1] = "pollL" THEN <<"take", op[2]>> ELSE op

Init == /\ kind \in Kinds
        /\ par \in (CASE kind = "task" -> {0, 1} [] kind \in {"lbq", "move"} -> 1..3 [] kind = "bulk" -> {100} [] OTHER -> {0})
        /\ prog \in (IF Record THEN {<<>>} ELSE [Threads -> [1..MaxOps -> {Norm(o) : o \in Ops(kind)}]])
        /\ obj = Start(kind, par) /\ status = [t \in Threads |-> Idle] /\ pc = [t \in Threads |-> 1]
        /\ configs = Start0(kind, par, Threads) /\ done = FALSE
\* ---- an object whose operations each happen at once, and what is seen of it
Begin(t) == /\ status[t].w = "idle" /\ pc[t] <= Len(prog[t])
            /\ status' = [status EXCEPT ![t] = [w |-> "pend", op |-> prog[t][pc[t]], r |-> 0]] /\ configs' = Call(configs, t, prog[t][pc[t]])
            /\ UNCHANGED <<obj, pc>>
Act(t) == /\ status[t].w \in {"pend", "mid"}
          /\ \E x \in Apply(kind, par, obj, status[t].op, status[t].w = "mid") : obj' = x[1] /\ status' = [status EXCEPT ![t].w = x[2], ![t].r = x[3]]
          /\ UNCHANGED <<pc, configs>>
End(t) == /\ status[t].w = "done"
          /\ configs' = Return(kind, par, configs, t, status[t].r)
          /\ status' = [status EXCEPT ![t] = Idle] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED obj
Step == ~Record /\ (\E t \in Threads : Begin(t) \/ Act(t) \/ End(t)) /\ UNCHANGED <<kind, par, prog, done>>
Emit == /\ Record /\ ~done /\ PrintT(ToJson([kind |-> kind, par |-> par, prog |-> TLCEval(Program(kind, par))])) /\ done' = TRUE
        /\ UNCHANGED <<kind, par, prog, obj, status, pc, configs>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Begin(t) \/ Act(t) \/ End(t))
-----------------------------------------------------------------------------
(* properties of the specification itself *)
\* what such an object shows is always explained
ExplainedOK == configs # {}
CapacityOK == kind \in {"lbq", "move"} => Len(obj) <= par
\* a task ends once, and never changes its mind
TaskOK == [][kind = "task" /\ obj[1] \in {"done", "cancelled"} => obj' = obj]_vars
=============================================================================
