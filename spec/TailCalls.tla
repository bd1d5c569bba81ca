----------------------------- MODULE TailCalls -----------------------------
(* Calls in tail position.  A behaviour first declares a program (methods and,
   for each, the call it makes when its counter is even or odd), then runs it.
   full is the stack of a machine in which every call takes a frame; lean that
   of a machine in which a call in tail position replaces its caller's frame. *)
EXTENDS Common
CONSTANTS Kinds, Types, Results, Modes, NM, MaxParams, Counts, LongCounts, MaxLen, Record, Pick(_), PickSeq(_, _)
VARIABLES phase, long, rtype, sigs, sites, full, lean, res, lres, log, trail, jumped, start
vars == <<phase, long, rtype, sigs, sites, full, lean, res, lres, log, trail, jumped, start>>

Vals == IF Record THEN 0..99 ELSE {3}
None == [k |-> "none", v |-> 0]
Init == /\ phase = "sigs" /\ sigs = <<>> /\ sites = <<>> /\ full = <<>> /\ lean = <<>> /\ res = None /\ lres = None /\ log = <<>> /\ trail = <<>> /\ jumped = 0 /\ start = <<>>
        /\ long \in (IF LongCounts = {} THEN {FALSE} ELSE {TRUE, FALSE}) /\ rtype \in Results
RunVars == <<full, lean, res, lres, log, trail, jumped, start>>
DeclareSig ==
  /\ phase = "sigs"
  /\ \E kind \in Pick(Kinds), sync \in Pick(IF long THEN {FALSE} ELSE {TRUE, FALSE, FALSE}), base \in Pick({"return", "throw"}), k \in Pick(0..MaxParams) : \E ps \in PickSeq(Types, k) :
       sigs' = Append(sigs, [kind |-> kind, sync |-> sync, base |-> base, ps |-> ps])
  /\ phase' = (IF Len(sigs) + 1 = NM THEN "sites" ELSE "sigs")
  /\ UNCHANGED <<long, rtype, sites, RunVars>>
\* where the arguments of a call come from: a parameter of the caller of that type, or a constant
Sources(m, t) == {<<"p", j>> : j \in {j \in 1..Len(sigs[m].ps) : sigs[m].ps[j] = t}}
RECURSIVE Srcs(_, _, _)
Srcs(m, ts, acc) == IF Len(acc) = Len(ts) THEN {acc}
  ELSE UNION {Srcs(m, ts, Append(acc, s)) : s \in LET S == Sources(m, ts[Len(acc) + 1]) IN Pick(IF S = {} \/ (Record /\ RandomElement(1..6) = 1) THEN {<<"c", RandomElement(Vals)>>} ELSE S)}
DeclareSite ==
  /\ phase = "sites"
  /\ LET m == (Len(sites) \div 2) + 1 IN
     \E g \in Pick(1..NM), mode \in Pick(IF long \/ (Record /\ RandomElement(1..2) = 1) THEN {"tail"} ELSE Modes) : \E ss \in Srcs(m, sigs[g].ps, <<>>) :
       sites' = Append(sites, [target |-> g, mode |-> mode, src |-> ss])
  /\ phase' = (IF Len(sites) + 1 = 2 * NM THEN "start" ELSE "sites")
  /\ UNCHANGED <<long, rtype, sigs, RunVars>>
Frame(m, args, n) == [m |-> m, args |-> args, n |-> n, pending |-> ""]
Start ==
  /\ phase = "start"
  /\ \E m \in Pick(1..NM), n \in Pick(IF long THEN LongCounts ELSE Counts) : \E args \in PickSeq(Vals, Len(sigs[m].ps)) :
       /\ lean' = <<Frame(m, args, n)>> /\ full' = (IF long THEN <<>> ELSE lean') /\ start' = <<m, n, args>>
  /\ phase' = "run" /\ UNCHANGED <<long, rtype, sigs, sites, res, lres, log, trail, jumped>>

Hash(m, args) == FoldLeft(LAMBDA h, x : (h * 31 + x) % 10007, m, args)
Site(f) == sites[2 * f.m - (f.n % 2)]
Eval(f, ss) == [i \in 1..Len(ss) |-> IF ss[i][1] = "p" THEN f.args[ss[i][2]] ELSE ss[i][2]]
Base(f) == [k |-> IF sigs[f.m].base = "throw" THEN "exc" ELSE "ret", v |-> Hash(f.m, f.args)]
\* a caller that holds a lock is still needed when its callee returns
IsTail(f) == Site(f).mode = "tail" /\ ~sigs[f.m].sync
Callee(f) == Frame(Site(f).target, Eval(f, Site(f).src), f.n - 1)
Top(s) == s[Len(s)]
Call(s, elide) == LET f == Top(s) IN IF elide /\ IsTail(f) THEN Append(Front(s), Callee(f)) ELSE Append(Append(Front(s), [f EXCEPT !.pending = Site(f).mode]), Callee(f))
\* what the result becomes as it passes a pending frame, and what that frame logs
Through(f, r) == CASE f.pending = "plus" /\ r.k = "ret" -> [r EXCEPT !.v = (@ * 3 + f.m) % 10007]
                   [] f.pending = "catch" /\ r.k = "exc" -> [k |-> "ret", v |-> (r.v + 5 * f.m) % 10007]
                   [] OTHER -> r
Logged(f, r) == IF (f.pending = "catch" /\ r.k = "exc") \/ f.pending = "finally" THEN <<f.pending, f.m, f.n>> ELSE <<>>
Locks == Cardinality({i \in 1..Len(full) : sigs[full[i].m].sync \/ full[i].pending = "sync"})

Running == phase = "run" /\ Len(lean) > 0
\* one more call, or the value at the end of the chain
Step ==
  /\ Running /\ res.k = "none" /\ lres.k = "none"
  /\ LET f == Top(lean) IN
     IF f.n = 0
     THEN /\ lres' = Base(f) /\ lean' = Front(lean)
          /\ IF long THEN UNCHANGED <<full, res>> ELSE res' = Base(Top(full)) /\ full' = Front(full)
          /\ log' = (IF long THEN log ELSE Append(log, <<"base", f.m, Locks>>))
          /\ UNCHANGED <<trail, jumped>>
     ELSE /\ lean' = Call(lean, TRUE)
          /\ IF long THEN full' = full ELSE full' = Call(full, FALSE)
          /\ log' = (IF long THEN log ELSE Append(log, <<"enter", f.m, f.n>>))
          /\ trail' = (IF long /\ jumped = 0 THEN Append(trail, <<f.m, f.args, f.n % 2>>) ELSE trail)
          /\ UNCHANGED <<res, lres, jumped>>
  /\ UNCHANGED <<phase, long, rtype, sigs, sites, start>>
\* a long chain has come round: whole rounds change nothing but the counter
Here == <<Top(lean).m, Top(lean).args, Top(lean).n % 2>>
ComeRound == /\ long /\ jumped = 0 /\ Running /\ lres.k = "none" /\ \E i \in 1..Len(trail) : trail[i] = Here
Jump == /\ LET i == CHOOSE i \in 1..Len(trail) : trail[i] = Here
               p == Len(trail) + 1 - i IN
           lean' = Append(Front(lean), [Top(lean) EXCEPT !.n = @ % p]) /\ jumped' = p
        /\ trail' = <<>> /\ UNCHANGED <<phase, long, rtype, sigs, sites, full, res, lres, log, start>>
\* back through the frames: the tail calls of the full machine are passed first
Back ==
  /\ phase = "run" /\ lres.k # "none" /\ ~(lean = <<>> /\ full = <<>>)
  /\ IF full # <<>> /\ Top(full).pending = "tail" /\ ~sigs[Top(full).m].sync
     THEN full' = Front(full) /\ UNCHANGED <<lean, res, lres, log>>
     ELSE /\ lean' = Front(lean) /\ lres' = Through(Top(lean), lres)
          /\ full' = Front(full) /\ res' = Through(Top(full), res)
          /\ log' = (IF Logged(Top(full), res) = <<>> THEN log ELSE Append(log, Logged(Top(full), res)))
  /\ UNCHANGED <<phase, long, rtype, sigs, sites, trail, jumped, start>>
Finish ==
  /\ phase = "run" /\ lres.k # "none" /\ lean = <<>> /\ full = <<>>
  /\ phase' = "done" /\ UNCHANGED <<long, rtype, sigs, sites, RunVars>>
Emit ==
  /\ Record /\ phase = "done" /\ (~long \/ jumped > 0)
  /\ PrintT(ToJson([long |-> long, rtype |-> rtype, sigs |-> sigs, sites |-> sites, start |-> start, kind |-> lres.k, value |-> lres.v, log |-> log, round |-> jumped]))
  /\ phase' = "stop" /\ UNCHANGED <<long, rtype, sigs, sites, RunVars>>
Next == DeclareSig \/ DeclareSite \/ Start \/ (IF ComeRound THEN Jump ELSE Step) \/ Back \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* properties of the specification itself *)
NonTail(s) == SelectSeq(s, LAMBDA f : f.pending # "tail" \/ sigs[f.m].sync)
\* the lean stack holds just the frames which still have something to do
LeanOK == (phase = "run" /\ ~long) => lean = NonTail(full)
\* and both machines give the same result
SameOK == (phase = "done" /\ ~long) => res = lres
\* a chain of tail calls never takes more than one frame
BoundedOK == long => Len(lean) <= 1
=============================================================================
