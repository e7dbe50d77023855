------------------------------- MODULE Stall -------------------------------
(* Stalling stages of a pipeline (pkg/pipeline WithStallStages), one locking step at a time.
   Every stage loops: evaluate the condition (if it is evaluated there), pass the stall mutex (if it can be stalled),
   wait for data, join the working group, process, leave the group.                                                *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Stages, Evals, Stalled,   \* all stages, those that evaluate, those that are stalled
          Rounds,                   \* items per stage
          GroupLock,                \* FALSE: joining the group does not take its mutex
          Barrier,                  \* FALSE: the action does not wait for the group to be empty
          Hold                      \* FALSE: the evaluating stage releases the stall mutex, although the action is to come
VARIABLES pc, n,                    \* program counter and items left of each stage
          mu,                       \* stall mutex: "" or its holder
          grp, grpMu,               \* size of the working group; holder of its mutex ("" none)
          rel,                      \* action runners: bag as a sequence of their program counters
          acts, evs                 \* actions finished, conditions that held
vars == << pc, n, mu, grp, grpMu, rel, acts, evs >>
Free == "free"
Init == /\ pc = [s \in Stages |-> "before"] /\ n = [s \in Stages |-> Rounds]
        /\ mu = Free /\ grp = 0 /\ grpMu = Free /\ rel = << >> /\ acts = 0 /\ evs = 0
Go(s, l) == pc' = [pc EXCEPT ![s] = l]
Before(s) == /\ pc[s] = "before" /\ Go(s, IF s \in Evals THEN "eval" ELSE IF s \in Stalled THEN "pass" ELSE "data")
             /\ UNCHANGED << n, mu, grp, grpMu, rel, acts, evs >>
After(s) == IF s \in Stalled THEN "pass" ELSE "data"
EvalNo(s) == /\ pc[s] = "eval" /\ mu = Free /\ Go(s, After(s)) /\ UNCHANGED << n, mu, grp, grpMu, rel, acts, evs >>
EvalYes(s) == /\ pc[s] = "eval" /\ mu = Free /\ Go(s, After(s)) /\ evs' = evs + 1
              /\ mu' = IF Hold THEN "runner" ELSE Free
              /\ rel' = Append(rel, "start")
              /\ UNCHANGED << n, grp, grpMu, acts >>
Pass(s) == /\ pc[s] = "pass" /\ mu = Free /\ Go(s, "data") /\ UNCHANGED << n, mu, grp, grpMu, rel, acts, evs >>
Data(s) == /\ pc[s] = "data"
           /\ IF n[s] = 0 THEN Go(s, "done") /\ UNCHANGED n
              ELSE /\ n' = [n EXCEPT ![s] = @ - 1] /\ Go(s, IF s \in Stalled THEN "join" ELSE "work")
           /\ UNCHANGED << mu, grp, grpMu, rel, acts, evs >>
Join(s) == /\ pc[s] = "join" /\ (GroupLock => grpMu = Free) /\ grp' = grp + 1 /\ Go(s, "work")
           /\ UNCHANGED << n, mu, grpMu, rel, acts, evs >>
Work(s) == /\ pc[s] = "work" /\ Go(s, "before") /\ grp' = IF s \in Stalled THEN grp - 1 ELSE grp
           /\ UNCHANGED << n, mu, grpMu, rel, acts, evs >>
RelLock(i) == /\ rel[i] = "start" /\ grpMu = Free /\ grpMu' = "runner" /\ rel' = [rel EXCEPT ![i] = "wait"]
              /\ UNCHANGED << pc, n, mu, grp, acts, evs >>
RelWait(i) == /\ rel[i] = "wait" /\ (Barrier => grp = 0) /\ rel' = [rel EXCEPT ![i] = "act"]
              /\ UNCHANGED << pc, n, mu, grp, grpMu, acts, evs >>
RelAct(i) == /\ rel[i] = "act" /\ acts' = acts + 1 /\ rel' = [rel EXCEPT ![i] = "unlock"]
             /\ UNCHANGED << pc, n, mu, grp, grpMu, evs >>
RelUnlock(i) == /\ rel[i] = "unlock" /\ mu' = Free /\ rel' = [rel EXCEPT ![i] = "last"]
                /\ UNCHANGED << pc, n, grp, grpMu, acts, evs >>
RelDone(i) == /\ rel[i] = "last" /\ grpMu' = Free /\ rel' = SubSeq(rel, 1, i - 1) \o SubSeq(rel, i + 1, Len(rel))
              /\ UNCHANGED << pc, n, mu, grp, acts, evs >>
AllDone == (\A s \in Stages : pc[s] = "done") /\ rel = << >> /\ UNCHANGED vars
Next == \/ AllDone
        \/ \E s \in Stages : Before(s) \/ EvalNo(s) \/ EvalYes(s) \/ Pass(s) \/ Data(s) \/ Join(s) \/ Work(s)
        \/ \E i \in 1..Len(rel) : RelLock(i) \/ RelWait(i) \/ RelAct(i) \/ RelUnlock(i) \/ RelDone(i)
Spec == Init /\ [][Next]_vars
Acting == { i \in 1..Len(rel) : rel[i] = "act" }
(* the action runs only while no stalled stage processes, and never twice at a time *)
Idle == Acting # {} => \A s \in Stalled : pc[s] # "work"
OneAction == Cardinality(Acting) <= 1
(* at most one evaluation that held waits for its action; none is lost *)
Owed == /\ evs - acts = Cardinality({ i \in 1..Len(rel) : rel[i] \in {"start", "wait", "act"} })
        /\ evs - acts <= 1
(* no deadlock: every stage and every action comes to its end *)
=============================================================================
