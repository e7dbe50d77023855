----------------------------- MODULE FetchRuns -----------------------------
(* Recorded histories of a fetcher. ev: << kind, a, b, flag >>: start (range a to b), reply (flag: as it should be),
   batch (a: first entry, b: number of them, flag: the entries and chains of the log), error, end, stop.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Runs
VARIABLES run, i, from, last, bad, erred, stopped
vars == << run, i, from, last, bad, erred, stopped >>
Init == run \in Runs /\ i = 1 /\ from = 0 /\ last = -1 /\ bad = FALSE /\ erred = FALSE /\ stopped = FALSE
Ev == run.ev[i]
Same(x) == UNCHANGED x
Step == /\ i <= Len(run.ev) /\ i' = i + 1 /\ UNCHANGED run
        /\ CASE Ev[1] = "start" -> from' = Ev[2] /\ last' = Ev[3] /\ bad' = FALSE /\ erred' = FALSE /\ stopped' = FALSE
             [] Ev[1] = "reply" -> bad' = (bad \/ ~Ev[4]) /\ UNCHANGED << from, last, erred, stopped >>
             [] Ev[1] = "batch" -> /\ Ev[4] /\ Ev[2] = from /\ Ev[3] > 0 /\ from + Ev[3] - 1 <= last /\ ~erred
                                   /\ from' = from + Ev[3] /\ UNCHANGED << last, bad, erred, stopped >>
             [] Ev[1] = "error" -> (bad \/ stopped) /\ ~erred /\ erred' = TRUE /\ UNCHANGED << from, last, bad, stopped >>
             [] Ev[1] = "end" -> (from > last \/ erred \/ stopped) /\ UNCHANGED << from, last, bad, erred, stopped >>
             [] Ev[1] = "stop" -> stopped' = TRUE /\ UNCHANGED << from, last, bad, erred >>
Spec == Init /\ [][Step]_vars
Accepted == i = Len(run.ev) + 1 => PrintT("@R " \o ToJson([id |-> run.id]))
=============================================================================
