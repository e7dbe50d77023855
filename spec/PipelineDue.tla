---------------------------- MODULE PipelineDue ----------------------------
(* How often every item has to be processed by every stage when nothing fails, for scenarios too large to explore. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Scen
VARIABLE sc
P == INSTANCE Pipeline WITH Scenarios <- Scen, GiveUpTogether <- TRUE, ReportFirst <- TRUE, TellEnd <- TRUE, Discard <- TRUE, ReadAll <- TRUE,
     pc <- 0, pend <- 0, bad <- 0, got <- 0, err <- 0, agg <- 0, closes <- 0, relay <- 0, rslot <- 0, fslot <- 0, bslot <- 0, bto <- 0, sniff <- 0,
     left <- 0, hit <- 0, ended <- 0, told <- 0, ret <- 0
DueTable(c) == [s \in 1..Len(c.out) |-> [x \in 1..(c.n + Len(c.out)) |->
                 IF x \in P!Items(c) /\ ~(x > c.n /\ P!Origin(c, x) = s) THEN P!Due(c, s, x) ELSE 0]]
DSpec == sc \in Scen /\ PrintT("@D " \o ToJson([id |-> sc.id, due |-> DueTable(sc)])) /\ [][UNCHANGED sc]_sc
=============================================================================
