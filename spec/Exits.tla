------------------------------- MODULE Exits --------------------------------
(* When does the VM exit: a tree of threads, some of them daemons (which never
   end by themselves), and the main thread (0).  Every other thread leaves a mark
   when it finishes, by returning or by an exception. *)
EXTENDS Common
CONSTANTS N, Record, Pick(_)
VARIABLES phase, parent, daemon, how, st, marks
vars == <<phase, parent, daemon, how, st, marks>>
All == 0..N
Hows == {"return", "throw", "late"}
Init == phase = "setup" /\ parent = [i \in 1..N |-> 0] /\ daemon = [i \in All |-> FALSE] /\ how = [i \in All |-> "return"]
  /\ st = [i \in All |-> IF i = 0 THEN "running" ELSE "new"] /\ marks = {}
Setup == /\ phase = "setup" /\ phase' = "run"
  /\ \E p \in Pick({p \in [1..N -> All] : \A i \in 1..N : p[i] < i}), d \in Pick([All -> BOOLEAN]), h \in Pick([All -> Hows]) :
     \* daemons start nobody: whether they come to it is open
     /\ parent' = [i \in 1..N |-> IF p[i] # 0 /\ d[p[i]] THEN 0 ELSE p[i]] /\ daemon' = [d EXCEPT ![0] = FALSE] /\ how' = h
  /\ UNCHANGED <<st, marks>>
Running == {i \in All : st[i] = "running"}
Start == phase = "run" /\ \E i \in Pick({i \in 1..N : st[i] = "new" /\ st[parent[i]] = "running"}) : st' = [st EXCEPT ![i] = "running"]
  /\ UNCHANGED <<phase, parent, daemon, how, marks>>
Finish == phase = "run" /\ \E i \in Pick({i \in Running : ~daemon[i] /\ \A j \in 1..N : parent[j] = i => st[j] # "new"}) :
  st' = [st EXCEPT ![i] = "ended"] /\ marks' = marks \cup {i} /\ UNCHANGED <<phase, parent, daemon, how>>
Exit == phase = "run" /\ (\A i \in Running : daemon[i]) /\ phase' = "exited" /\ UNCHANGED <<parent, daemon, how, st, marks>>
Emit == phase = "exited" /\ phase' = "done" /\ UNCHANGED <<parent, daemon, how, st, marks>>
  /\ (Record => PrintT(ToJson([parent |-> parent, daemon |-> [i \in 1..N |-> IF daemon[i] THEN 1 ELSE 0], how |-> [i \in 1..N |-> how[i]], main |-> how[0], marks |-> SortInts(marks)])))
Pad == phase = "done" /\ UNCHANGED vars
Some(S) == S # {}
Next == Setup \/ (phase = "run" /\ Some({i \in 1..N : st[i] = "new" /\ st[parent[i]] = "running"}) /\ Start)
  \/ (phase = "run" /\ Some({i \in Running : ~daemon[i] /\ \A j \in 1..N : parent[j] = i => st[j] # "new"}) /\ Finish) \/ Exit \/ Emit \/ Pad
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
------------------------------------------------------------------------------
Exited == phase \in {"exited", "done"}
\* the VM exits only when every thread that is not a daemon has finished, and the outcome is determined
NobodyCut == Exited => marks = {i \in All : ~daemon[i]}
Terminates == <>Exited
=============================================================================
