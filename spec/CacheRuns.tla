----------------------------- MODULE CacheRuns -----------------------------
(* Recorded histories of concurrent calls of a cache, against what its callers rely on.
   ev: << kind, caller, identifiers, answer >>, kinds: ask, told, add, added.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Runs               \* set of [id, ev, cap]; cap: 0 if unbounded
VARIABLES run, i, started, returned, seen, pend
vars == << run, i, started, returned, seen, pend >>
Range(s) == { s[k] : k \in 1..Len(s) }
Init == run \in Runs /\ i = 1 /\ started = {} /\ returned = {} /\ seen = {} /\ pend = << >>
Ev == run.ev[i]
Who == ToString(Ev[2])
Step == /\ i <= Len(run.ev) /\ i' = i + 1 /\ UNCHANGED run
        /\ CASE Ev[1] = "ask" -> pend' = (Who :> (returned \cup seen)) @@ pend /\ UNCHANGED << started, returned, seen >>
             [] Ev[1] = "told" -> /\ IF Ev[4] THEN Ev[3][1] \in started ELSE Ev[3][1] \notin pend[Who]
                                  /\ seen' = IF Ev[4] THEN seen \cup {Ev[3][1]} ELSE seen
                                  /\ UNCHANGED << started, returned, pend >>
             [] Ev[1] = "add" -> started' = started \cup Range(Ev[3]) /\ UNCHANGED << returned, seen, pend >>
             [] Ev[1] = "added" -> returned' = returned \cup Range(Ev[3]) /\ UNCHANGED << started, seen, pend >>
Spec == Init /\ [][Step]_vars
Accepted == i = Len(run.ev) + 1 => PrintT("@R " \o ToJson([id |-> run.id]))
=============================================================================
