---------------------------- MODULE ResponderRuns ----------------------------
(* Recorded histories of a responder: ev: << kind, caller, version, signed >>, kinds: publish (begins), published, reload, reloaded (signed:
   without error), ask, answer (the version of which the root is, and whether the signature is that of this root),
   entry (of an answer of several, before the answer), none (an error instead of an answer).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Runs
VARIABLES run, i, coming, published, began, floor, asked, part
vars == << run, i, coming, published, began, floor, asked, part >>
Init == run \in Runs /\ i = 1 /\ coming = 1 /\ published = 1 /\ began = << >> /\ floor = 1 /\ asked = << >> /\ part = << >>
Ev == run.ev[i]
Who == ToString(Ev[2])
Max(a, b) == IF a > b THEN a ELSE b
Step == /\ i <= Len(run.ev) /\ i' = i + 1 /\ UNCHANGED run
        /\ coming' = (IF Ev[1] = "publish" THEN Ev[3] ELSE coming)
        /\ CASE Ev[1] = "publish" -> UNCHANGED << published, began, floor, asked, part >>
             [] Ev[1] = "published" -> published' = Ev[3] /\ UNCHANGED << began, floor, asked, part >>
             [] Ev[1] = "reload" -> began' = (Who :> published) @@ began /\ UNCHANGED << published, floor, asked, part >>
             [] Ev[1] = "reloaded" -> floor' = (IF Ev[4] THEN Max(floor, began[Who]) ELSE floor) /\ UNCHANGED << published, began, asked, part >>
             [] Ev[1] = "ask" -> asked' = (Who :> floor) @@ asked /\ part' = (Who :> 0) @@ part /\ UNCHANGED << published, began, floor >>
             [] Ev[1] = "entry" -> /\ Ev[4] /\ Ev[3] >= asked[Who] /\ Ev[3] <= coming /\ part[Who] \in {0, Ev[3]}
                                   /\ part' = [part EXCEPT ![Who] = Ev[3]] /\ UNCHANGED << published, began, floor, asked >>
             [] Ev[1] = "none" -> UNCHANGED << published, began, floor, asked, part >>
Spec == Init /\ [][Step]_vars
Accepted == i = Len(run.ev) + 1 => PrintT("@R " \o ToJson([id |-> run.id]))
=============================================================================
