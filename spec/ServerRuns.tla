----------------------------- MODULE ServerRuns -----------------------------
(* Recorded histories of update requests: ev: << kind, requester, phase, flag >>, kinds:
   ask (flag: waits for its turn), op (an operation of the cycle of this requester begins; requester 0: of whichever is
   running), opend (flag: without error), ret (phase: yes, no or ? for whether it says that an update was started;
   flag: without error), cancel, stop (the server is told to exit).                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Runs
VARIABLES run, i, st, active, stopped
vars == << run, i, st, active, stopped >>
Ids == 0..20
Init == run \in Runs /\ i = 1 /\ active = 0 /\ stopped = FALSE
        /\ st = [c \in Ids |-> [pc |-> "none", waits |-> FALSE, busy |-> 0, failed |-> FALSE, loaded |-> FALSE, cancelled |-> FALSE]]
Ev == run.ev[i]
C == IF Ev[2] = 0 THEN active ELSE Ev[2]
Over(c) == st[c].busy = 0 /\ (st[c].failed \/ st[c].loaded \/ st[c].cancelled)
Step == /\ i <= Len(run.ev) /\ i' = i + 1 /\ UNCHANGED run
        /\ CASE Ev[1] = "ask" -> /\ st[C].pc = "none" /\ st' = [st EXCEPT ![C].pc = "asked", ![C].waits = Ev[4]] /\ UNCHANGED << active, stopped >>
             [] Ev[1] = "op" -> /\ C # 0 /\ UNCHANGED stopped
                                /\ IF C = active THEN st[C].pc = "run" /\ UNCHANGED active
                                   ELSE /\ st[C].pc = "asked" /\ (active # 0 => Over(active)) /\ active' = C
                                /\ st' = [x \in Ids |-> IF x = C THEN [st[x] EXCEPT !.pc = "run", !.busy = @ + 1]
                                                       ELSE IF x = active THEN [st[x] EXCEPT !.pc = IF @ = "run" THEN "over" ELSE @] ELSE st[x]]
             [] Ev[1] = "opend" -> /\ C # 0 /\ st[C].busy > 0 /\ UNCHANGED << active, stopped >>
                                   /\ st' = [st EXCEPT ![C].busy = @ - 1, ![C].failed = @ \/ ~Ev[4], ![C].loaded = @ \/ (Ev[3] = "reload" /\ Ev[4])]
             [] Ev[1] = "ret" -> /\ UNCHANGED stopped /\ active' = (IF active = C THEN 0 ELSE active) /\ st' = [st EXCEPT ![C].pc = "gone"]
                                 /\ CASE st[C].pc \in {"run", "over"} -> /\ Over(C) /\ Ev[3] # "no"
                                                                         /\ IF Ev[4] THEN st[C].loaded /\ ~st[C].failed ELSE st[C].failed \/ st[C].cancelled \/ stopped
                                      [] st[C].pc = "asked" -> \/ ~Ev[4] /\ (stopped \/ st[C].cancelled)
                                                               \/ Ev[4] /\ Ev[3] = "no" /\ ~st[C].waits
                                      [] OTHER -> FALSE
             [] Ev[1] = "cancel" -> st' = [st EXCEPT ![C].cancelled = TRUE] /\ UNCHANGED << active, stopped >>
             [] Ev[1] = "stop" -> stopped' = TRUE /\ UNCHANGED << st, active >>
Spec == Init /\ [][Step]_vars
Accepted == i = Len(run.ev) + 1 => PrintT("@R " \o ToJson([id |-> run.id]))
=============================================================================
