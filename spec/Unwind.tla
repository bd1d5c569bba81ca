------------------------------- MODULE Unwind -------------------------------
(* Structured control flow with exceptions: try/catch/finally, synchronized
   blocks, method calls of all kinds, explicit and VM-raised exceptions,
   rethrow and return.  A behaviour is one run of one program; the program is
   what the run made of it, so every construct is entered once.
   st is the stack of open constructs, innermost last; cur what is under way
   (nothing, an exception or a return); held the lock count of each monitor. *)
EXTENDS Common
CONSTANTS Kinds, Thrown, Implicit, Caught, Mons, MaxDepth, MaxLen, MaxStmts, Record, Pick(_), PickSeq(_, _)
VARIABLES st, cur, held, n, done, hist
vars == <<st, cur, held, n, done, hist>>

Parent == [E0 |-> "RuntimeException", E1 |-> "E0", E2 |-> "E0", E3 |-> "E1", R0 |-> "Error",
           NullPointerException |-> "RuntimeException", ArithmeticException |-> "RuntimeException", ClassCastException |-> "RuntimeException",
           ArrayStoreException |-> "RuntimeException", NegativeArraySizeException |-> "RuntimeException",
           ArrayIndexOutOfBoundsException |-> "IndexOutOfBoundsException", IndexOutOfBoundsException |-> "RuntimeException",
           InvocationTargetException |-> "Exception", RuntimeException |-> "Exception", Exception |-> "Throwable", Error |-> "Throwable", Throwable |-> "none"]
RECURSIVE Sub1(_, _)
Sub1(a, b) == a = b \/ (a # "none" /\ Parent[a] # "none" /\ Sub1(Parent[a], b))
SubOf == [a \in DOMAIN Parent |-> [b \in DOMAIN Parent |-> Sub1(a, b)]]
Nothing == [k |-> "none", d |-> <<>>, fr |-> <<>>, v |-> 0]
Exc(d, fr) == [k |-> "exc", d |-> d, fr |-> fr, v |-> 0]
Ret(v) == [k |-> "ret", d |-> <<>>, fr |-> <<>>, v |-> v]
Type(e) == e.d[1]

Top == st[Len(st)]
Depth == Len(st)
Reflective == {"reflectStatic", "reflectVirtual"}
\* innermost call on the stack, and the calls open, innermost first
FrameAt == CHOOSE i \in 1..Depth : st[i].c = "call" /\ \A j \in (i + 1)..Depth : st[j].c # "call"
Frames == LET I == SelectSeq([i \in 1..Depth |-> Depth + 1 - i], LAMBDA i : st[i].c = "call") IN [i \in 1..Len(I) |-> st[I[i]].id]
Locals == st[FrameAt].loc
HeldFlags == [m \in 1..Cardinality(Mons) |-> IF held[m] > 0 THEN 1 ELSE 0]
H(e) == hist' = IF Record THEN Append(hist, e) ELSE hist
Tick == n' = n + 1
See == IF Record THEN <<Locals, HeldFlags>> ELSE <<>>

Construct(c, id) == [c |-> c, id |-> id, kind |-> "", mon |-> 0, types |-> <<>>, fin |-> FALSE, phase |-> "body", saved |-> Nothing, runs |-> 0, exc |-> Nothing, loc |-> <<>>]
Push(x) == st' = Append(st, x)
Pop == st' = SubSeq(st, 1, Depth - 1)
SetTop(x) == st' = [st EXCEPT ![Depth] = x]
\* not too deep in one method: a compiler copies each finally block to every way out
Open == Depth < MaxDepth /\ Depth - FrameAt < 5 /\ n < MaxStmts
Vals == IF Record THEN 0..99 ELSE {0}
Quiet == UNCHANGED <<cur, held, done>>
Running == cur.k = "none" /\ ~done

\* -------- statements
DoLog == H(<<"log", n, See>>) /\ Tick /\ UNCHANGED st /\ Quiet
DoAssign == \E i \in Pick(1..3), x \in Pick(Vals) : H(<<"assign", n, i, x>>) /\ Tick /\ st' = [st EXCEPT ![FrameAt].loc[i] = x] /\ Quiet
Ordered(ts) == \A i, j \in 1..Len(ts) : i < j => ~SubOf[ts[j]][ts[i]]
DoTry == Open /\ \E k \in Pick(0..3), f \in Pick({TRUE, FALSE}) : (k > 0 \/ f) /\ \E ts \in PickSeq(Caught, k), wide \in Pick({0, 1}), w \in Pick(Caught \cap {"Throwable", "RuntimeException", "Exception"}) :
  LET ws == IF wide = 1 /\ k > 0 THEN Append(Sub(ts, 1, k - 1), w) ELSE ts
      ks == IF Ordered(ws) THEN ws ELSE Sub(ws, k, k) IN
  H(<<"try", n, ks, IF f THEN 1 ELSE 0>>) /\ Tick /\ Push([Construct("try", n) EXCEPT !.types = ks, !.fin = f]) /\ Quiet
DoSync == Open /\ \E m \in Pick(Mons) : H(<<"sync", n, m>>) /\ Tick /\ Push([Construct("sync", n) EXCEPT !.mon = m])
  /\ held' = [held EXCEPT ![m] = @ + 1] /\ UNCHANGED <<cur, done>>
\* a call; the synchronized kinds take the monitor of the receiver (or class: the last one)
MonOf(kind, m) == CASE kind = "syncVirtual" -> m [] kind = "syncStatic" -> Cardinality(Mons) [] OTHER -> 0
\* a tail call is the last thing its caller does: the caller returns what it returns
DoCall == Open /\ \E kind \in Pick(IF Top.c = "call" THEN Kinds ELSE Kinds \ {"tail"}), m \in Pick(Mons \ {Cardinality(Mons)}), np \in Pick(IF Record THEN 0..6 ELSE {0}), ls \in PickSeq(Vals, 3) :
  LET mon == MonOf(kind, m) IN
  H(<<"call", n, kind, m, np, ls>>) /\ Tick /\ Push([Construct("call", n) EXCEPT !.kind = kind, !.mon = mon, !.loc = ls])
  /\ held' = (IF mon = 0 THEN held ELSE [held EXCEPT ![mon] = @ + 1]) /\ UNCHANGED <<cur, done>>
DoThrow == \E t \in Pick(Thrown) : H(<<"throw", n, t>>) /\ Tick /\ cur' = Exc(<<t, IF Record THEN ToString(n) ELSE "0">>, Frames) /\ UNCHANGED <<st, held, done>>
DoFault == \E t \in Pick(Implicit), x \in Pick(IF Record THEN 0..5 ELSE {0}) : H(<<"fault", n, t, x>>) /\ Tick /\ cur' = Exc(<<t>>, Frames) /\ UNCHANGED <<st, held, done>>
DoRethrow == Top.c = "try" /\ Top.phase = "handler" /\ H(<<"rethrow", n>>) /\ Tick /\ cur' = Top.exc /\ UNCHANGED <<st, held, done>>
DoReturn == \E x \in Pick(Vals) : H(<<"return", n, x>>) /\ Tick /\ cur' = Ret(x) /\ UNCHANGED <<st, held, done>>
\* the end of the innermost block is reached
DoEnd ==
  IF Top.c = "try" /\ Top.phase # "finally" /\ Top.fin
  THEN H(<<"finally", Top.id>>) /\ SetTop([Top EXCEPT !.phase = "finally", !.runs = @ + 1]) /\ UNCHANGED <<cur, held, n, done>>
  ELSE IF Top.c = "try" THEN H(<<"end", Top.id>>) /\ Pop /\ cur' = Top.saved /\ UNCHANGED <<held, n, done>>
  ELSE IF Top.c = "sync" THEN H(<<"end", Top.id>>) /\ Pop /\ held' = [held EXCEPT ![Top.mon] = @ - 1] /\ UNCHANGED <<cur, n, done>>
  ELSE \* a method that ends returns its first local
       H(<<"last", Top.id, Top.loc[1]>>) /\ cur' = Ret(Top.loc[1]) /\ UNCHANGED <<st, held, n, done>>

\* -------- unwinding: one construct at a time
Matching(e, ts) == LET M == {i \in 1..Len(ts) : SubOf[Type(e)][ts[i]]} IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : i <= j
Unwind ==
  /\ cur.k # "none" /\ ~done
  /\ LET x == Top IN
     CASE x.c = "try" /\ x.phase = "body" /\ cur.k = "exc" /\ Matching(cur, x.types) # 0 ->
            H(<<"catch", x.id, Matching(cur, x.types), cur.d, cur.fr, See>>) /\ SetTop([x EXCEPT !.phase = "handler", !.exc = cur]) /\ cur' = Nothing /\ UNCHANGED <<held, done>>
       [] x.c = "try" /\ x.phase # "finally" /\ x.fin /\ (x.phase # "body" \/ cur.k # "exc" \/ Matching(cur, x.types) = 0) ->
            H(<<"finally", x.id>>) /\ SetTop([x EXCEPT !.phase = "finally", !.saved = cur, !.runs = @ + 1]) /\ cur' = Nothing /\ UNCHANGED <<held, done>>
       [] x.c = "sync" -> H(<<"leave", x.id>>) /\ Pop /\ held' = [held EXCEPT ![x.mon] = @ - 1] /\ UNCHANGED <<cur, done>>
       [] x.c = "call" /\ Depth > 1 ->
            /\ IF x.mon = 0 THEN held' = held ELSE held' = [held EXCEPT ![x.mon] = @ - 1]
            /\ Pop /\ UNCHANGED done
            /\ IF cur.k = "ret" THEN H(<<"returned", x.id, cur.v>>) /\ cur' = IF x.kind = "tail" THEN cur ELSE Nothing
               ELSE LET below == SubSeq(st, 1, Depth - 1)
                        I == SelectSeq([i \in 1..(Depth - 1) |-> Depth - i], LAMBDA i : st[i].c = "call")
                        fr == [i \in 1..Len(I) |-> st[I[i]].id] IN
                    H(<<"leave", x.id>>) /\ cur' = IF x.kind \in Reflective THEN Exc(<<"InvocationTargetException">> \o cur.d, fr) ELSE cur
       [] x.c = "call" /\ Depth = 1 ->
            H(<<"exit", IF cur.k = "ret" THEN <<>> ELSE cur.d, cur.v, HeldFlags>>) /\ done' = TRUE /\ cur' = Nothing /\ UNCHANGED <<st, held>>
       [] OTHER -> H(<<"leave", x.id>>) /\ Pop /\ UNCHANGED <<cur, held, done>>
  /\ UNCHANGED n

Stmts == <<"log", "log", "assign", "assign", "try", "try", "try", "sync", "call", "call", "call", "throw", "fault", "rethrow", "return", "end", "end">>
Early == <<"try", "try", "try", "call", "call", "sync", "log", "assign">>
Late == <<"log", "end", "end", "throw", "fault", "return", "rethrow">>
Do(op) == CASE op = "log" -> DoLog [] op = "assign" -> DoAssign [] op = "try" -> DoTry [] op = "sync" -> DoSync [] op = "call" -> DoCall [] op = "throw" -> DoThrow
  [] op = "fault" -> DoFault [] op = "rethrow" -> DoRethrow [] op = "return" -> DoReturn [] op = "end" -> DoEnd
Init == /\ st = <<[Construct("call", 0) EXCEPT !.kind = "static", !.loc = <<1, 2, 3>>]>> /\ cur = Nothing /\ held = [m \in Mons |-> 0] /\ n = 1 /\ done = FALSE /\ hist = <<>>
Step == /\ Running
        /\ IF Record THEN \E c \in 0..9 : IF c = 0 THEN DoLog
                          ELSE LET w == IF n < 4 THEN <<"try", "call", "sync", "log">> ELSE IF Depth = 1 /\ n < MaxStmts - 5 THEN Early ELSE IF n < MaxStmts THEN Stmts ELSE Late IN \E i \in Pick(1..Len(w)) : Do(w[i])
           ELSE n <= MaxStmts /\ \E op \in Range1(Stmts) : Do(op)
Emit == /\ Record /\ done
        /\ PrintT(ToJson([hist |-> hist]))
        /\ st' = <<>> /\ done' = FALSE /\ cur' = [Nothing EXCEPT !.k = "stop"] /\ UNCHANGED <<held, n, hist>>
Next == Step \/ (cur.k # "stop" /\ Unwind) \/ Emit
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
(* properties of the specification itself *)
Count(m) == Cardinality({i \in 1..Depth : st[i].mon = m})
\* the locks held are exactly those of the open constructs: none when a program ends
LocksOK == \A m \in Mons : held[m] = Count(m)
EndOK == done => \A m \in Mons : held[m] = 0
\* a finally block runs at most once, and has run when its construct is left
FinallyOK == \A i \in 1..Depth : st[i].runs <= 1 /\ (st[i].runs = 1 <=> st[i].phase = "finally")
LeftOK == [][Len(st') < Len(st) /\ st # <<>> /\ Top.c = "try" /\ Top.fin => Top.runs = 1]_vars
\* a handler is entered only with an exception of its type
HandlerOK == \A i \in 1..Depth : st[i].phase = "handler" => st[i].exc.k = "exc"
=============================================================================
