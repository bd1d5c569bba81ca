------------------------------ MODULE Threads -------------------------------
(* The life of threads as a program sees it: creation, start, join, sleep, park,
   interruption, uncaught exceptions, inherited attributes and thread-locals.
   Commands are given to running threads one at a time; each completes at once
   or leaves its thread blocked until a later command lets it go on. *)
EXTENDS Common
CONSTANTS NThreads, Vals, MaxLen, Record, Pick(_)
Threads == 1..NThreads
Keys == 1..3      \* 1: plain, 2: initialValue gives Initial, 3: inheritable, the child gets one more
None == 0 - 1     \* null
Initial == 40
CONSTANTS Ok, Illegal, Interrupted, BadArg
VARIABLES st,     \* thread -> "none", "new", "idle", "sleep", "join", "park", "dead"
          on,     \* thread -> thread it joins or 0
          intr,   \* interrupt status
          permit, \* park permit
          loc,    \* thread -> key -> value, or Unset
          daemon, prio,
          hand,   \* thread -> own handler of uncaught exceptions, 0: none
          deleg,  \* does the handler of the group pass exceptions on to the default one?
          runs,   \* how often each thread's body was entered
          last, hist
vars == <<st, on, intr, permit, loc, daemon, prio, hand, deleg, runs, last, hist>>
Unset == 0 - 2
Alive(t) == st[t] \in {"idle", "sleep", "join", "park"}
Idle == {t \in Threads : st[t] = "idle"}
In(S) == {t \in Threads : st[t] \in S}

\* done: sequence of <<thread, result>>
Log(op, t, x, y, done) == /\ last' = <<op, t, x>>
  /\ hist' = IF Record THEN Append(hist, <<op, <<t, x, y, [i \in 1..Len(done) |-> done[i][1]]>>, done>>) ELSE hist
Say(op, t, x, y, r) == Log(op, t, x, y, <<<<t, r>>>>)
B(x) == IF x THEN 1 ELSE 0
Rest == UNCHANGED <<st, on, intr, permit, loc, daemon, prio, hand, deleg, runs>>

Create == \E t \in Pick(Idle) : In({"none"}) # {} /\ \E u \in Pick(In({"none"})) :
  /\ st' = [st EXCEPT ![u] = "new"] /\ daemon' = [daemon EXCEPT ![u] = daemon[t]] /\ prio' = [prio EXCEPT ![u] = prio[t]]
  /\ loc' = [loc EXCEPT ![u] = [k \in Keys |-> IF k = 3 /\ loc[t][3] # Unset THEN (IF loc[t][3] = None THEN None ELSE loc[t][3] + 1) ELSE Unset]]
  /\ UNCHANGED <<on, intr, permit, hand, deleg, runs>> /\ Say("create", t, u, 0, Ok)
Start == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none"})) :
  IF st[u] = "new" THEN /\ st' = [st EXCEPT ![u] = "idle"] /\ runs' = [runs EXCEPT ![u] = @ + 1]
      /\ UNCHANGED <<on, intr, permit, loc, daemon, prio, hand, deleg>> /\ Say("start", t, u, 0, Ok)
  ELSE Rest /\ Say("start", t, u, 0, Illegal)
StartNew == \E t \in Pick(Idle) : In({"new"}) # {} /\ \E u \in Pick(In({"new"})) :
  /\ st' = [st EXCEPT ![u] = "idle"] /\ runs' = [runs EXCEPT ![u] = @ + 1]
  /\ UNCHANGED <<on, intr, permit, loc, daemon, prio, hand, deleg>> /\ Say("start", t, u, 0, Ok)
\* leave run(): who joins goes on
Leave(op, t, r) == LET J == {u \in Threads : st[u] = "join" /\ on[u] = t} S == SortInts(J) IN
  /\ st' = [u \in Threads |-> IF u = t THEN "dead" ELSE IF u \in J THEN "idle" ELSE st[u]]
  /\ on' = [u \in Threads |-> IF u \in J THEN 0 ELSE on[u]]
  /\ UNCHANGED <<intr, permit, loc, daemon, prio, hand, deleg, runs>>
  /\ Log(op, t, 0, 0, <<<<t, r>>>> \o [i \in 1..Len(S) |-> <<S[i], Ok>>])
Exit == \E t \in Pick(Idle) : Leave("exit", t, Ok)
\* an uncaught exception: own handler, else the group's, which may pass it on to the default one
Die == \E t \in Pick(Idle) : Leave("die", t, IF hand[t] # 0 THEN hand[t] ELSE IF deleg THEN 4 ELSE 3)
SetHand == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none", "dead"})), h \in Pick(0..2) : hand' = [hand EXCEPT ![u] = h]
  /\ UNCHANGED <<st, on, intr, permit, loc, daemon, prio, deleg, runs>> /\ Say("hand", t, u, h, Ok)
SetDeleg == \E t \in Pick(Idle), b \in Pick(BOOLEAN) : deleg' = b
  /\ UNCHANGED <<st, on, intr, permit, loc, daemon, prio, hand, runs>> /\ Say("deleg", t, 0, B(b), Ok)

\* blocking operations: an interrupt pending or arriving ends sleep and join and is consumed
Block(op, t, u, y, ends, s) ==
  IF intr[t] THEN intr' = [intr EXCEPT ![t] = FALSE] /\ UNCHANGED <<st, on, permit, loc, daemon, prio, hand, deleg, runs>>
                  /\ Say(op, t, u, y, Interrupted)
  ELSE IF ends THEN Rest /\ Say(op, t, u, y, Ok)
  ELSE st' = [st EXCEPT ![t] = s] /\ on' = [on EXCEPT ![t] = u]
       /\ UNCHANGED <<intr, permit, loc, daemon, prio, hand, deleg, runs>> /\ Log(op, t, u, y, <<>>)
\* whether join of a thread that is not alive consumes an interrupt is left open; y: 0 join(), 1 join(0), 2 join(0, 0), 3 join(1)
Join == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none"})), y \in Pick(0..3) : (intr[t] => Alive(u)) /\ Block("join", t, u, y, ~Alive(u) \/ y = 3, "join")
Sleep == \E t \in Pick(Idle) : Block("sleep", t, 0, 0, FALSE, "sleep")
Nap == \E t \in Pick(Idle), y \in Pick(0..2) : Block("nap", t, 0, y, TRUE, "sleep")
\* park returns for a permit, which it takes, or an interrupt, which it leaves
Park == \E t \in Pick(Idle) :
  IF permit[t] \/ intr[t] THEN permit' = [permit EXCEPT ![t] = FALSE]
     /\ UNCHANGED <<st, on, intr, loc, daemon, prio, hand, deleg, runs>> /\ Say("park", t, 0, 0, Ok)
  ELSE st' = [st EXCEPT ![t] = "park"] /\ UNCHANGED <<on, intr, permit, loc, daemon, prio, hand, deleg, runs>> /\ Log("park", t, 0, 0, <<>>)
Unpark == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none", "new"})) :
  IF st[u] = "park" THEN st' = [st EXCEPT ![u] = "idle"] /\ UNCHANGED <<on, intr, permit, loc, daemon, prio, hand, deleg, runs>>
                         /\ Log("unpark", t, u, 0, <<<<t, Ok>>, <<u, Ok>>>>)
  ELSE permit' = [permit EXCEPT ![u] = TRUE] /\ UNCHANGED <<st, on, intr, loc, daemon, prio, hand, deleg, runs>> /\ Say("unpark", t, u, 0, Ok)
\* interrupting a thread before it starts is left open
Interrupt == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none", "new"})) :
  CASE st[u] \in {"sleep", "join"} -> st' = [st EXCEPT ![u] = "idle"] /\ on' = [on EXCEPT ![u] = 0]
          /\ UNCHANGED <<intr, permit, loc, daemon, prio, hand, deleg, runs>> /\ Log("interrupt", t, u, 0, <<<<t, Ok>>, <<u, Interrupted>>>>)
    [] st[u] = "park" -> st' = [st EXCEPT ![u] = "idle"] /\ intr' = [intr EXCEPT ![u] = TRUE]
          /\ UNCHANGED <<on, permit, loc, daemon, prio, hand, deleg, runs>> /\ Log("interrupt", t, u, 0, <<<<t, Ok>>, <<u, Ok>>>>)
    [] st[u] = "idle" -> intr' = [intr EXCEPT ![u] = TRUE] /\ UNCHANGED <<st, on, permit, loc, daemon, prio, hand, deleg, runs>> /\ Say("interrupt", t, u, 0, Ok)
    [] OTHER -> Rest /\ Say("interrupt", t, u, 0, Ok)
IsIntr == \E t \in Pick(Idle), u \in Pick({u \in Threads : Alive(u)}) : Rest /\ Say("isintr", t, u, 0, B(intr[u]))
ClearIntr == \E t \in Pick(Idle) : intr' = [intr EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<st, on, permit, loc, daemon, prio, hand, deleg, runs>> /\ Say("clearintr", t, 0, 0, B(intr[t]))

AskAlive == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none"})) : Rest /\ Say("alive", t, u, 0, B(Alive(u)))
AskState == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none"})) :
  Rest /\ Say("state", t, u, 0, IF st[u] = "new" THEN 0 ELSE IF st[u] = "dead" THEN 2 ELSE 1)
AskTrace == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none", "dead"})) : Rest /\ Say("trace", t, u, 0, B(Alive(u)))
AskDaemon == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none"})) : Rest /\ Say("daemon", t, u, 0, B(daemon[u]))
SetDaemon == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none", "dead"})), b \in Pick(BOOLEAN) :
  IF st[u] = "new" THEN daemon' = [daemon EXCEPT ![u] = b] /\ UNCHANGED <<st, on, intr, permit, loc, prio, hand, deleg, runs>> /\ Say("setdaemon", t, u, B(b), Ok)
  ELSE Rest /\ Say("setdaemon", t, u, B(b), Illegal)
AskPrio == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none", "dead"})) : Rest /\ Say("prio", t, u, 0, prio[u])
SetPrio == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none", "dead"})), p \in Pick({0, 1, 4, 5, 6, 10, 11}) :
  IF p \in 1..10 THEN prio' = [prio EXCEPT ![u] = p] /\ UNCHANGED <<st, on, intr, permit, loc, daemon, hand, deleg, runs>> /\ Say("setprio", t, u, p, Ok)
  ELSE Rest /\ Say("setprio", t, u, p, BadArg)
AskRuns == \E t \in Pick(Idle), u \in Pick(Threads \ In({"none"})) : Rest /\ Say("runs", t, u, 0, runs[u])

Set == \E t \in Pick(Idle), k \in Pick(Keys), v \in Pick(Vals \cup {None}) : loc' = [loc EXCEPT ![t][k] = v]
  /\ UNCHANGED <<st, on, intr, permit, daemon, prio, hand, deleg, runs>> /\ Say("set", t, k, v, Ok)
\* the first get fixes the initial value
Get == \E t \in Pick(Idle), k \in Pick(Keys) : LET v == IF loc[t][k] # Unset THEN loc[t][k] ELSE IF k = 2 THEN Initial ELSE None IN
  /\ loc' = [loc EXCEPT ![t][k] = v]
  /\ UNCHANGED <<st, on, intr, permit, daemon, prio, hand, deleg, runs>> /\ Say("get", t, k, 0, v)
Gc == \E t \in Pick(Idle) : Rest /\ Say("gc", t, 0, 0, Ok)

Rep(x, n) == [i \in 1..n |-> x]
Menu == Rep("create", 9) \o Rep("startnew", 9) \o Rep("start", 1) \o Rep("exit", 3) \o Rep("die", 2) \o Rep("hand", 2) \o Rep("deleg", 1)
  \o Rep("join", 6) \o Rep("sleep", 3) \o Rep("nap", 1) \o Rep("park", 3) \o Rep("unpark", 4) \o Rep("interrupt", 7) \o Rep("isintr", 3)
  \o Rep("clearintr", 2) \o Rep("alive", 2) \o Rep("state", 2) \o Rep("trace", 1) \o Rep("daemon", 1) \o Rep("setdaemon", 1) \o Rep("prio", 1)
  \o Rep("setprio", 1) \o Rep("runs", 1) \o Rep("set", 4) \o Rep("get", 6) \o Rep("gc", 1)
Do(op) == CASE op = "create" -> Create [] op = "startnew" -> StartNew [] op = "start" -> Start [] op = "exit" -> Exit [] op = "die" -> Die
  [] op = "hand" -> SetHand [] op = "deleg" -> SetDeleg [] op = "join" -> Join [] op = "sleep" -> Sleep [] op = "nap" -> Nap [] op = "park" -> Park
  [] op = "unpark" -> Unpark [] op = "interrupt" -> Interrupt [] op = "isintr" -> IsIntr [] op = "clearintr" -> ClearIntr
  [] op = "alive" -> AskAlive [] op = "state" -> AskState [] op = "trace" -> AskTrace [] op = "daemon" -> AskDaemon [] op = "setdaemon" -> SetDaemon
  [] op = "prio" -> AskPrio [] op = "setprio" -> SetPrio [] op = "runs" -> AskRuns [] op = "set" -> Set [] op = "get" -> Get [] op = "gc" -> Gc

Init == /\ st = [t \in Threads |-> IF t = 1 THEN "idle" ELSE "none"] /\ on = [t \in Threads |-> 0] /\ intr = [t \in Threads |-> FALSE]
        /\ permit = [t \in Threads |-> FALSE] /\ loc = [t \in Threads |-> [k \in Keys |-> Unset]] /\ daemon = [t \in Threads |-> t = 1]
        /\ prio = [t \in Threads |-> 5] /\ hand = [t \in Threads |-> 0] /\ deleg = FALSE /\ runs = [t \in Threads |-> IF t = 1 THEN 1 ELSE 0]
        /\ last = <<"", 0, 0>> /\ hist = <<>>
Out == Len(hist) > 0 /\ hist[Len(hist)][1] = "end"
Step == IF Record THEN /\ Len(hist) < MaxLen /\ Idle # {}
                       /\ \/ \E c \in 1..6 : \E i \in Pick(1..Len(Menu)) : (Menu[i] \in {"exit", "die", "sleep", "park", "join"} => Cardinality(Idle) > 1 \/ c = 6) /\ Do(Menu[i])
                          \/ AskAlive
        ELSE \E op \in Range1(Menu) : Do(op)
Emit == /\ Record /\ (Len(hist) = MaxLen \/ Idle = {}) /\ ~Out /\ PrintT(ToJson([hist |-> hist]))
        /\ hist' = Append(hist, <<"end", <<>>, 0>>) /\ Rest /\ UNCHANGED last
Pad == Record /\ Out /\ UNCHANGED vars
Next == Step \/ Emit \/ Pad
Spec == Init /\ [][Next]_vars
View == <<st, on, intr, permit, loc, daemon, prio, hand, deleg, runs>>
------------------------------------------------------------------------------
TypeOK == \A t \in Threads : on[t] # 0 <=> st[t] = "join"
\* a body runs exactly once, after the start
RunsOnce == \A t \in Threads : runs[t] = IF st[t] \in {"none", "new"} THEN 0 ELSE 1
JoinWaits == \A t \in Threads : st[t] = "join" => Alive(on[t])
JoinEnds == [][\A t \in Threads : st[t] = "join" /\ st'[t] = "idle" => st'[on[t]] = "dead" \/ last'[1] = "interrupt"]_vars
\* an interrupt stays until one consumer takes it
InterruptKept == [][\A t \in Threads : intr[t] /\ ~intr'[t] => last'[1] \in {"clearintr", "join", "sleep", "nap"} /\ last'[2] = t]_vars
\* only a thread itself, or its parent when it creates it, changes its values
LocalsPrivate == [][\A t \in Threads : loc'[t] # loc[t] => last'[2] = t \/ (last'[1] = "create" /\ last'[3] = t)]_vars
DeadStaysDead == [][\A t \in Threads : st[t] = "dead" => st'[t] = "dead"]_vars
\* the constants of the exhaustive run leave the attributes alone
Few == ~deleg /\ \A t \in Threads : prio[t] = 5 /\ hand[t] = 0 /\ loc[t][1] = Unset /\ loc[t][2] = Unset /\ (daemon[t] = (t = 1 \/ st[t] # "none"))
=============================================================================
