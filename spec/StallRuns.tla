----------------------------- MODULE StallRuns -----------------------------
(* Recorded runs of real pipelines with stalls, as sequences of observed events, against what an observer of Stall may
   see: enter and exit of processing functions of stalled stages, evaluations that held, begin and end of actions.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Runs               \* set of [id, ev]; ev: sequence of << kind, stage >>
VARIABLES run, i, inside, acting, owed
vars == << run, i, inside, acting, owed >>
Init == run \in Runs /\ i = 1 /\ inside = {} /\ acting = FALSE /\ owed = 0
Ev == run.ev[i]
Step == /\ i <= Len(run.ev) /\ i' = i + 1 /\ UNCHANGED run
        /\ CASE Ev[1] = "enter" -> Ev[2] \notin inside /\ ~acting /\ inside' = inside \cup {Ev[2]} /\ UNCHANGED << acting, owed >>
             [] Ev[1] = "exit" -> Ev[2] \in inside /\ inside' = inside \ {Ev[2]} /\ UNCHANGED << acting, owed >>
             [] Ev[1] = "eval" -> ~acting /\ owed = 0 /\ owed' = 1 /\ UNCHANGED << inside, acting >>
             [] Ev[1] = "begin" -> owed = 1 /\ ~acting /\ inside = {} /\ acting' = TRUE /\ owed' = 0 /\ UNCHANGED inside
             [] Ev[1] = "end" -> acting /\ acting' = FALSE /\ UNCHANGED << inside, owed >>
Spec == Init /\ [][Step]_vars
Accepted == (i = Len(run.ev) + 1 /\ inside = {} /\ ~acting /\ owed = 0) => PrintT("@R " \o ToJson([id |-> run.id]))
=============================================================================
