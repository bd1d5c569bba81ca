------------------------------ MODULE ClassInit ------------------------------
(* Class initialization.  Every initializer does what it is told, one command
   at a time: use another class, return or throw; so does every thread outside
   of initializers.  After a command the threads run until each of them waits
   for a command or for another thread to initialize a class.
   state, owner: of each class; st: per thread, the stack of uses (k = "use")
   and initializations (k = "init"; ph = "super" until the initializer runs). *)
EXTENDS Common
CONSTANTS N, T, MaxSteps, Active, Passive, Throws, Variants, Record, Pick(_)
VARIABLES super, iface, state, owner, st, intr, begun, n, cmd, rep, hist, done
vars == <<super, iface, state, owner, st, intr, begun, n, cmd, rep, hist, done>>
Classes == 1..N
Threads == 1..T
Top(t) == st[t][Len(st[t])]
Below(t) == SubSeq(st[t], 1, Len(st[t]) - 1)
Use(c) == [k |-> "use", c |-> c, ph |-> ""]
Initing(c, ph) == [k |-> "init", c |-> c, ph |-> ph]
\* kinds of use an interface allows
IfaceKinds == {"get", "call", "forName", "fieldGet"}
KindsOf(c) == IF c \in iface THEN Active \cap IfaceKinds ELSE Active

\* what thread t waits for: a class another thread is initializing (0: none)
Needs(t) == IF st[t] = <<>> THEN 0 ELSE IF Top(t).k = "use" THEN Top(t).c ELSE IF Top(t).ph = "super" THEN super[Top(t).c] ELSE 0
BlockedOn(t) == LET c == Needs(t) IN IF c # 0 /\ state[c] = "prog" /\ owner[c] # t THEN owner[c] ELSE 0
Enabled1(t) == st[t] # <<>> /\ (Top(t).k = "use" \/ Top(t).ph = "super") /\ BlockedOn(t) = 0
Awaits(t) == st[t] = <<>> \/ (Top(t).k = "init" /\ Top(t).ph = "run")
Report(t, x) == /\ rep' = (IF Record THEN [rep EXCEPT ![t] = Append(@, <<x, IF intr[t] THEN 1 ELSE 0>>)] ELSE rep)
                /\ intr' = [intr EXCEPT ![t] = FALSE]
Silent == UNCHANGED <<rep, intr>>
Result(t, c) == ToString(IF state[c] = "done" THEN c ELSE 0)

\* class initialization failed with e: every initialization it was needed for fails, up to the use
RECURSIVE FailedIn(_)
FailedIn(s) == IF s[Len(s)].k = "use" THEN {} ELSE {s[Len(s)].c} \cup FailedIn(SubSeq(s, 1, Len(s) - 1))
RECURSIVE UseBelow(_)
UseBelow(s) == IF s[Len(s)].k = "use" THEN SubSeq(s, 1, Len(s) - 1) ELSE UseBelow(SubSeq(s, 1, Len(s) - 1))
Fail(t, e) == LET F == FailedIn(st[t]) IN
  /\ state' = [c \in Classes |-> IF c \in F THEN "err" ELSE state[c]] /\ owner' = [c \in Classes |-> IF c \in F THEN 0 ELSE owner[c]]
  /\ st' = [st EXCEPT ![t] = UseBelow(@)] /\ Report(t, "x" \o e) /\ UNCHANGED begun

Begin(t, c) == /\ state' = [state EXCEPT ![c] = "prog"] /\ owner' = [owner EXCEPT ![c] = t]
               /\ st' = [st EXCEPT ![t] = Append(@, Initing(c, "super"))] /\ Silent /\ UNCHANGED begun
\* one internal step of a thread which need not wait
Micro(t) ==
  /\ Enabled1(t)
  /\ LET x == Top(t) IN
     IF x.k = "use"
     THEN CASE state[x.c] = "none" -> Begin(t, x.c)
            [] state[x.c] = "err" -> st' = [st EXCEPT ![t] = Below(t)] /\ Report(t, "xNoClassDefFoundError") /\ UNCHANGED <<state, owner, begun>>
            [] OTHER -> st' = [st EXCEPT ![t] = Below(t)] /\ Report(t, "o" \o Result(t, x.c)) /\ UNCHANGED <<state, owner, begun>>
     ELSE LET s == super[x.c] IN
          IF s = 0 \/ state[s] \in {"done", "prog"}
          THEN st' = [st EXCEPT ![t][Len(st[t])].ph = "run"] /\ begun' = [begun EXCEPT ![x.c] = @ + 1] /\ Report(t, "i" \o ToString(x.c)) /\ UNCHANGED <<state, owner>>
          ELSE IF state[s] = "err" THEN Fail(t, "NoClassDefFoundError")
          ELSE Begin(t, s)
  /\ UNCHANGED <<super, iface, n, cmd, hist, done>>

\* ---------------- commands
Cmd(c) == cmd' = IF Record THEN c ELSE <<>>
\* would using c make t wait for a thread which waits for t?
RECURSIVE First(_, _)
First(t, c) == IF c = 0 THEN 0 ELSE IF state[c] = "prog" THEN (IF owner[c] = t THEN 0 ELSE owner[c]) ELSE IF state[c] = "none" THEN First(t, super[c]) ELSE 0
RECURSIVE Reaches(_, _, _)
Reaches(a, t, k) == a # 0 /\ (a = t \/ (k > 0 /\ Reaches(BlockedOn(a), t, k - 1)))
Safe(t, c) == ~Reaches(First(t, c), t, T)
Ready == {t \in Threads : Awaits(t)}
SubsOf(c) == {d \in Classes : super[d] = c}
DoUse(t) == \E c \in Pick(Classes) : \E kind \in Pick(KindsOf(c)), v \in Pick(Variants), d \in Pick(SubsOf(c) \cup {c}) :
  IF ~Safe(t, c) THEN Cmd(<<"gc">>) /\ UNCHANGED <<st, state, owner, begun>> /\ Silent
  ELSE Cmd(<<"use", t, kind, c, d, v>>) /\ st' = [st EXCEPT ![t] = Append(@, Use(c))] /\ UNCHANGED <<state, owner, begun>> /\ Silent
DoPassive(t) == \E c \in Pick(Classes), kind \in Pick(Passive), v \in Pick(Variants) :
  Cmd(<<"use", t, kind, c, c, v>>) /\ Report(t, "o0") /\ UNCHANGED <<st, state, owner, begun>>
DoEnd(t) == IF st[t] = <<>> THEN DoUse(t) ELSE
  /\ Cmd(<<"end", t>>) /\ LET c == Top(t).c IN state' = [state EXCEPT ![c] = "done"] /\ owner' = [owner EXCEPT ![c] = 0]
  /\ st' = [st EXCEPT ![t] = Below(t)] /\ UNCHANGED begun /\ Silent
DoThrow(t) == IF st[t] = <<>> THEN DoUse(t) ELSE
  \E x \in Pick(Throws) : Cmd(<<"throw", t, x>>) /\ Fail(t, IF x = "error" THEN "MyError" ELSE "ExceptionInInitializerError<" \o x)
\* a waiting thread is interrupted: it goes on waiting
DoInterrupt == LET W == {t \in Threads : BlockedOn(t) # 0} IN
  IF W = {} THEN Cmd(<<"gc">>) /\ UNCHANGED <<st, state, owner, begun>> /\ Silent
  ELSE \E t \in Pick(W) : Cmd(<<"interrupt", t>>) /\ intr' = [intr EXCEPT ![t] = TRUE] /\ UNCHANGED <<st, state, owner, begun, rep>>
DoGc == Cmd(<<"gc">>) /\ UNCHANGED <<st, state, owner, begun>> /\ Silent

Ops == <<"use", "use", "use", "use", "end", "end", "end", "throw", "passive", "interrupt", "gc">>
Do(op) == CASE op = "interrupt" -> DoInterrupt [] op = "gc" -> DoGc
  [] OTHER -> \E t \in Pick(Ready) : CASE op = "use" -> DoUse(t) [] op = "passive" -> DoPassive(t) [] op = "end" -> DoEnd(t) [] op = "throw" -> DoThrow(t)
Quiet == \A t \in Threads : ~Enabled1(t)
Init == /\ super = [c \in Classes |-> 0] /\ iface = {} /\ state = [c \in Classes |-> "none"] /\ owner = [c \in Classes |-> 0] /\ st = [t \in Threads |-> <<>>]
        /\ intr = [t \in Threads |-> FALSE] /\ begun = [c \in Classes |-> 0] /\ n = 0 /\ cmd = <<>> /\ rep = [t \in Threads |-> <<>>] /\ hist = <<>> /\ done = FALSE
\* the hierarchy: interfaces first, then classes
Shape == /\ n < N /\ LET c == n + 1 IN
            /\ \E x \in Pick(IF Record THEN 0..3 ELSE {0, 1}) : iface' = IF x = 0 /\ (\A d \in 1..(c - 1) : d \in iface) THEN iface \cup {c} ELSE iface
            /\ \E s \in Pick((0..(c - 1)) \ iface) : super' = [super EXCEPT ![c] = IF c \in iface' THEN 0 ELSE s]
         /\ n' = n + 1 /\ UNCHANGED <<state, owner, st, intr, begun, cmd, rep, hist, done>>
Command == /\ IF Record THEN \E c \in 0..9 : IF c = 0 THEN DoGc ELSE \E i \in Pick(1..Len(Ops)) : Do(Ops[i])
              ELSE \E op \in Range1(Ops) : Do(op)
           /\ n' = n + 1 /\ UNCHANGED <<super, iface, hist, done>>
\* what a command led to
Flush == hist' = Append(hist, <<cmd, rep>>) /\ cmd' = <<>> /\ rep' = [t \in Threads |-> <<>>] /\ UNCHANGED <<super, iface, state, owner, st, intr, begun, n, done>>
Emit == /\ Record /\ ~done /\ PrintT(ToJson([super |-> super, iface |-> SortInts(iface), hist |-> hist]))
        /\ done' = TRUE /\ UNCHANGED <<super, iface, state, owner, st, intr, begun, n, cmd, rep, hist>>
Next == IF n < N THEN Shape ELSE IF ~Quiet THEN \E t \in Threads : Micro(t) ELSE IF cmd # <<>> THEN Flush ELSE IF n < MaxSteps THEN Command ELSE Emit
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* properties of the specification itself *)
OnceOK == \A c \in Classes : begun[c] <= 1 /\ (state[c] = "done" => begun[c] = 1) /\ (state[c] = "none" => begun[c] = 0)
\* an initializer runs after the one of the superclass, unless that is what uses it
OrderOK == \A c \in Classes : super[c] # 0 /\ begun[c] = 1 /\ n >= N => /\ state[super[c]] # "none"
  /\ (state[c] = "done" /\ state[super[c]] = "prog" => begun[super[c]] = 1 \/ \E t \in Threads : \E i \in 1..Len(st[t]) : st[t][i].c = super[c] /\ st[t][i].ph = "super")
OwnerOK == \A c \in Classes : (state[c] = "prog") = (owner[c] # 0) /\ (owner[c] # 0 => \E i \in 1..Len(st[owner[c]]) : st[owner[c]][i].k = "init" /\ st[owner[c]][i].c = c)
\* some thread can always go on
NoDeadlock == Quiet => Ready # {}
\* what is finished stays so
FinalOK == [][\A c \in Classes : state[c] \in {"done", "err"} => state'[c] = state[c]]_vars
\* once everything begun has ended nobody waits
NobodyLeft == Quiet /\ (\A c \in Classes : state[c] # "prog") => \A t \in Threads : st[t] = <<>>
=============================================================================
