------------------------------ MODULE Monitor -------------------------------
(* Java monitors as a program sees them: reentrant locks, wait sets, notify,
   interruption.  Commands are given to threads one at a time; each command
   completes at once or leaves its thread blocked until a later command lets it
   go on.  Where the language leaves open which thread goes first, the
   candidates are required to be in the same situation and the least of them is
   taken; the replay renames threads accordingly. *)
EXTENDS Common
CONSTANTS NThreads, NMons, MaxDepth, MaxLen, Record, Pick(_)
Threads == 1..NThreads
Mons == 1..NMons

VARIABLES st,     \* thread -> "idle", "enter" (blocked entering), "wait" (in a wait set), "back" (woken, re-entering)
          on,     \* thread -> monitor it is blocked on or 0
          why,    \* thread -> result it will report when it goes on
          stack,  \* thread -> monitors held, innermost last
          intr,   \* thread -> interrupt status
          last, hist
vars == <<st, on, why, stack, intr, last, hist>>
CONSTANTS Ok, Illegal, Interrupted

\* a thread in a wait set keeps its stack but does not own the monitor it waits on
Owns(stk, s, o, t, m) == m \in Range1(stk[t]) /\ ~(s[t] \in {"wait", "back"} /\ o[t] = m)
Owner(stk, s, o, m) == IF \E t \in Threads : Owns(stk, s, o, t, m) THEN CHOOSE t \in Threads : Owns(stk, s, o, t, m) ELSE 0
Contend(s, o, m) == {t \in Threads : s[t] \in {"enter", "back"} /\ o[t] = m}
Waiters(m) == {t \in Threads : st[t] = "wait" /\ on[t] = m}
Holder(m) == Owner(stack, st, on, m)
Idle == {t \in Threads : st[t] = "idle"}
\* mostly the monitors t holds
MonsFor(t) == IF Record /\ stack[t] # <<>> /\ RandomElement(1..6) > 1 THEN Range1(stack[t]) ELSE Mons
WaitIdle == IF Record /\ (\E t \in Idle : stack[t] # <<>>) /\ RandomElement(1..8) > 1 THEN {t \in Idle : stack[t] # <<>>} ELSE Idle
\* may the language pick any of these?
Alike(S, s, w, stk) == \A a, b \in S : s[a] = s[b] /\ w[a] = w[b] /\ stk[a] = stk[b] /\ intr[a] = intr[b]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

(* what happens after a command: every monitor that is free goes to one contender *)
RECURSIVE Settle(_)
Settle(c) ==   \* c: record st, on, why, stack, done (sequence of <<thread, candidates, result>>), good
  LET free == {m \in Mons : Owner(c.stack, c.st, c.on, m) = 0 /\ Contend(c.st, c.on, m) # {}} IN
  IF free = {} THEN c ELSE
  LET m == Least(free)
      S == Contend(c.st, c.on, m)
      t == Least(S)
      \* which of the threads waiting alike was notified shows only now
      C == IF c.st[t] = "back" /\ c.why[t] = Ok
           THEN S \cup {u \in Threads : c.st[u] = "wait" /\ c.on[u] = m /\ c.stack[u] = c.stack[t] /\ intr[u] = intr[t]} ELSE S
  IN CHOOSE r \in {Settle(d) : d \in {[c EXCEPT !.st[t] = "idle", !.on[t] = 0,
                      !.stack[t] = IF c.st[t] = "enter" THEN Append(@, m) ELSE @,
                      !.done = Append(@, <<t, SortInts(C), c.why[t]>>),
                      !.good = @ /\ Alike(S, c.st, c.why, c.stack)]}} : TRUE
Cur == [st |-> st, on |-> on, why |-> why, stack |-> stack, done |-> <<>>, good |-> TRUE]
Finish(t, r) == <<t, <<t>>, r>>

\* no deadlock: were everybody to let go of everything, all would come to an end
RECURSIVE Free(_, _)
Free(c, F) == LET G == {t \in Threads : c.st[t] = "idle" \/ (LET h == Owner(c.stack, c.st, c.on, c.on[t]) IN h = 0 \/ h \in F)} IN
  IF G = F THEN F ELSE Free(c, G)

Fire(op, t, m, c0, intr2) == \E c \in {Settle(d) : d \in {c0}} :
  /\ c.good /\ Free(c, {}) = Threads /\ st' = c.st /\ on' = c.on /\ why' = c.why /\ stack' = c.stack /\ intr' = intr2
  /\ last' = <<op, t, m>>
  /\ hist' = IF Record THEN Append(hist, <<op, <<t, m, [i \in 1..Len(c.done) |-> <<c.done[i][1], c.done[i][2]>>]>>,
                                         [i \in 1..Len(c.done) |-> <<c.done[i][1], c.done[i][3]>>]>>) ELSE hist
Reply(op, t, m, r) == Fire(op, t, m, [Cur EXCEPT !.done = <<Finish(t, r)>>], intr)

Lock == \E t \in Pick(Idle), m \in Pick(Mons) :
  /\ Len(stack[t]) < MaxDepth
  /\ Fire("lock", t, m, [Cur EXCEPT !.st[t] = "enter", !.on[t] = m, !.why[t] = Ok,
       \* re-entering succeeds at once
       !.stack[t] = @], intr) /\ Holder(m) # t
Relock == \E t \in Pick({t \in Idle : stack[t] # <<>>}) : \E m \in Pick(Range1(stack[t])) :
  /\ Len(stack[t]) < MaxDepth
  /\ Fire("lock", t, m, [Cur EXCEPT !.stack[t] = Append(@, m), !.done = <<Finish(t, Ok)>>], intr)
Unlock == \E t \in Pick({t \in Idle : stack[t] # <<>>}), how \in Pick({"unlock", "throw"}) :
  Fire(how, t, 0, [Cur EXCEPT !.stack[t] = SubSeq(@, 1, Len(@) - 1), !.done = <<Finish(t, Ok)>>], intr)
Wait == \E t \in Pick(WaitIdle) : \E m \in Pick(MonsFor(t)) :
  IF Holder(m) # t THEN Reply("wait", t, m, Illegal)
  ELSE IF intr[t] THEN Contend(st, on, m) = {} /\ Fire("wait", t, m, [Cur EXCEPT !.done = <<Finish(t, Interrupted)>>], [intr EXCEPT ![t] = FALSE])
  ELSE Fire("wait", t, m, [Cur EXCEPT !.st[t] = "wait", !.on[t] = m], intr)
\* a timed wait nobody ends; who else wants the monitor would make the outcome open
TimedWait == \E t \in Pick(WaitIdle) : \E m \in Pick(MonsFor(t)) :
  /\ Contend(st, on, m) = {}
  /\ IF Holder(m) # t THEN Reply("twait", t, m, Illegal)
     ELSE IF intr[t] THEN Fire("twait", t, m, [Cur EXCEPT !.done = <<Finish(t, Interrupted)>>], [intr EXCEPT ![t] = FALSE])
     ELSE Reply("twait", t, m, Ok)
Notify == \E t \in Pick(WaitIdle) : \E m \in Pick(MonsFor(t)) :
  IF Holder(m) # t THEN Reply("notify", t, m, Illegal)
  ELSE IF Waiters(m) = {} THEN Reply("notify", t, m, Ok)
  ELSE LET W == Waiters(m) IN
    /\ Alike(W, st, why, stack)
    \* the woken one is not known until it runs: it must be possible to rename it afterwards
    /\ Cardinality(W) > 1 => Contend(st, on, m) = {} 
    /\ Fire("notify", t, m, [Cur EXCEPT !.st[Least(W)] = "back", !.why[Least(W)] = Ok, !.done = <<Finish(t, Ok)>>], intr)
NotifyAll == \E t \in Pick(WaitIdle) : \E m \in Pick(MonsFor(t)) :
  IF Holder(m) # t THEN Reply("notifyAll", t, m, Illegal)
  ELSE Fire("notifyAll", t, m, [Cur EXCEPT !.st = [u \in Threads |-> IF u \in Waiters(m) THEN "back" ELSE st[u]],
              !.why = [u \in Threads |-> IF u \in Waiters(m) THEN Ok ELSE why[u]], !.done = <<Finish(t, Ok)>>], intr)
\* notified threads whose turn has not come: is it one of several?
Pending(m) == {u \in Threads : st[u] = "back" /\ on[u] = m}
Ambiguous == {u \in Threads : on[u] # 0 /\ st[u] \in {"wait", "back"} /\ Pending(on[u]) # {} /\ Waiters(on[u]) # {}}
Interrupt == \E t \in Pick(Idle), u \in Pick(Threads) :
  \* a thread that is notified and interrupted at once may report either
  /\ st[u] # "back" /\ u \notin Ambiguous
  /\ IF st[u] = "wait" THEN Fire("interrupt", t, u, [Cur EXCEPT !.st[u] = "back", !.why[u] = Interrupted, !.done = <<Finish(t, Ok)>>], intr)
     ELSE Fire("interrupt", t, u, [Cur EXCEPT !.done = <<Finish(t, Ok)>>], [intr EXCEPT ![u] = TRUE])
IsIntr == \E t \in Pick(Idle), u \in Pick(Threads) : /\ st[u] # "back" /\ u \notin Ambiguous
  /\ Reply("isintr", t, u, IF intr[u] THEN 1 ELSE 0)
ClearIntr == \E t \in Pick(Idle) : Fire("clearintr", t, 0, [Cur EXCEPT !.done = <<Finish(t, IF intr[t] THEN 1 ELSE 0)>>], [intr EXCEPT ![t] = FALSE])
Holds == \E t \in Pick(Idle), m \in Pick(Mons) : Reply("holds", t, m, IF Holder(m) = t THEN 1 ELSE 0)
Gc == \E t \in Pick(Idle) : Reply("gc", t, 0, Ok)

Rep(x, n) == [i \in 1..n |-> x]
Menu == Rep("lock", 14) \o Rep("relock", 4) \o Rep("unlock", 9) \o Rep("wait", 9) \o Rep("twait", 2) \o Rep("notify", 6)
  \o Rep("notifyAll", 3) \o Rep("interrupt", 4) \o Rep("isintr", 2) \o Rep("clearintr", 2) \o Rep("holds", 3) \o Rep("gc", 1)
Do(op) == CASE op = "lock" -> Lock [] op = "relock" -> Relock [] op = "unlock" -> Unlock [] op = "wait" -> Wait [] op = "twait" -> TimedWait
  [] op = "notify" -> Notify [] op = "notifyAll" -> NotifyAll [] op = "interrupt" -> Interrupt [] op = "isintr" -> IsIntr
  [] op = "clearintr" -> ClearIntr [] op = "holds" -> Holds [] op = "gc" -> Gc

Init == /\ st = [t \in Threads |-> "idle"] /\ on = [t \in Threads |-> 0] /\ why = [t \in Threads |-> Ok]
        /\ stack = [t \in Threads |-> <<>>] /\ intr = [t \in Threads |-> FALSE] /\ last = <<"", 0, 0>> /\ hist = <<>>
Keep == UNCHANGED <<st, on, why, stack, intr, last>>
Out == Len(hist) > 0 /\ hist[Len(hist)][1] = "end"
Step == IF Record THEN /\ Len(hist) < MaxLen /\ Idle # {}
                       /\ \/ \E c \in 1..6 : \E i \in Pick(1..Len(Menu)) : Do(Menu[i])
                          \/ Holds
        ELSE \E op \in Range1(Menu) : Do(op)
Emit == /\ Record /\ (Len(hist) = MaxLen \/ Idle = {}) /\ ~Out /\ PrintT(ToJson([hist |-> hist]))
        /\ hist' = Append(hist, <<"end", <<>>, 0>>) /\ Keep
Pad == Record /\ Out /\ UNCHANGED vars
Next == Step \/ Emit \/ Pad
Spec == Init /\ [][Next]_vars
View == <<st, on, why, stack, intr>>

------------------------------------------------------------------------------
TypeOK == \A t \in Threads : Len(stack[t]) <= MaxDepth /\ (st[t] = "idle" <=> on[t] = 0)
MutualExclusion == \A m \in Mons : Cardinality({t \in Threads : Owns(stack, st, on, t, m)}) <= 1
\* nobody is kept out of a free monitor
NoIdleLock == \A m \in Mons : Contend(st, on, m) # {} => Holder(m) # 0
\* a waiting thread holds the monitor again, at its old depth, when it goes on
DepthKept == [][\A t \in Threads : st[t] \in {"wait", "back"} => stack'[t] = stack[t]]_vars
WaitOnlyEndsByWakeup == [][\A t \in Threads : st[t] = "wait" /\ st'[t] # "wait" => last'[1] \in {"notify", "notifyAll", "interrupt"}]_vars
=============================================================================
