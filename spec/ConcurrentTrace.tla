--------------------------- MODULE ConcurrentTrace ---------------------------
(* Recorded histories: is there an explanation for each? *)
EXTENDS Concurrent
VARIABLES h, i
Histories == JsonDeserialize("trace.json")
tvars == <<h, i, configs>>
Ev == Histories[h].ev[i]
TInit == /\ h \in 1..Len(Histories) /\ i = 1
         /\ configs = Start0(Histories[h].kind, Histories[h].par, Threads)
         /\ kind = "" /\ par = 0 /\ prog = <<>> /\ obj = 0 /\ status = <<>> /\ pc = <<>> /\ done = FALSE
TStep == /\ i <= Len(Histories[h].ev) /\ configs # {}
         /\ configs' = IF Ev[1] = 0 THEN Call(configs, Ev[2], Plain(Ev[3])) ELSE Return(Histories[h].kind, Histories[h].par, configs, Ev[2], Ev[3])
         /\ i' = i + 1 /\ (i' > Len(Histories[h].ev) /\ configs' # {} => PrintT(<<"ACCEPTED", h>>))
         /\ UNCHANGED <<h, kind, par, prog, obj, status, pc, done>>
TSpec == TInit /\ [][TStep]_<<h, i, configs>>
=============================================================================
