------------------------------- MODULE Server -------------------------------
(* The map server's update requests: requesters hand their request to the one worker, which runs the cycle and answers.
   The phases of a cycle end with loading the new tree into the responder.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Waiting,     \* requesters that wait for their turn
          Maybe,       \* requesters that only want an update if none is running
          Asks, Phases, Stops, Cancels, Fails,
          Early,       \* TRUE: the answer is given before the last phase, and another one if this phase fails
          Closes       \* TRUE: the request channel is closed at the end
VARIABLES st, left, w, stopped, fails, crashed, act
vars == << st, left, w, stopped, fails, crashed, act >>
Reqs == Waiting \cup Maybe
Idle == [pc |-> "idle", c |-> "-", ph |-> 0, err |-> FALSE, told |-> FALSE]
Init == /\ st = [c \in Reqs |-> [pc |-> "idle", cancelled |-> FALSE, res |-> "-", ph |-> 0, err |-> FALSE]] /\ left = [c \in Reqs |-> Asks]
        /\ w = Idle /\ stopped = FALSE /\ crashed = FALSE /\ act = [what |-> "init", who |-> "-", ok |-> TRUE] /\ fails = Fails
Did(a, c, ok) == act' = [what |-> a, who |-> c, ok |-> ok]
Quiet == Did("none", "-", TRUE)
To(c, pc, res) == st' = [st EXCEPT ![c].pc = pc, ![c].res = res, ![c].ph = w.ph, ![c].err = w.err]
Ask(c) == /\ st[c].pc = "idle" /\ left[c] > 0 /\ left' = [left EXCEPT ![c] = @ - 1] /\ Did("ask", c, TRUE)
          /\ st' = [st EXCEPT ![c] = [pc |-> "asked", cancelled |-> FALSE, res |-> "-", ph |-> 0, err |-> FALSE]]
          /\ UNCHANGED << w, stopped, fails, crashed >>
Accept(c) == /\ st[c].pc = "asked" /\ w.pc = "idle" /\ st' = [st EXCEPT ![c].pc = "accepted"] /\ w' = [Idle EXCEPT !.pc = "work", !.c = c, !.ph = 1]
             /\ Quiet /\ UNCHANGED << left, stopped, fails, crashed >>
Decline(c) == /\ c \in Maybe /\ st[c].pc = "asked" /\ w.pc \notin {"idle", "gone"} /\ To(c, "told", "declined") /\ Quiet
              /\ UNCHANGED << left, w, stopped, fails, crashed >>
Refuse(c) == /\ st[c].pc = "asked" /\ w.pc = "gone"
             /\ IF Closes THEN crashed' = TRUE /\ UNCHANGED st ELSE To(c, "told", "refused") /\ UNCHANGED crashed
             /\ Quiet /\ UNCHANGED << left, w, stopped, fails >>
(* a failing phase skips all but the last one *)
Work(ok) == /\ w.pc = "work" /\ (~ok => fails > 0 \/ st[w.c].cancelled) /\ fails' = (IF ok \/ st[w.c].cancelled THEN fails ELSE fails - 1)
            /\ Did("phase", w.c, ok)
            /\ LET e == w.err \/ ~ok
                   nx == IF ok THEN w.ph + 1 ELSE IF w.ph = Phases THEN Phases + 1 ELSE Phases IN
               w' = [w EXCEPT !.err = e, !.ph = nx,
                             !.pc = IF Early THEN IF nx = Phases THEN "answer" ELSE IF nx > Phases THEN (IF ok THEN "done" ELSE "again") ELSE "work"
                                    ELSE IF nx > Phases THEN "answer" ELSE "work"]
            /\ UNCHANGED << st, left, stopped, crashed >>
Answer(c) == /\ w.pc = (IF w.told THEN "again" ELSE "answer") /\ st[c].pc = "accepted" /\ To(c, "told", IF w.err THEN "failed" ELSE "done")
             /\ w' = (IF Early /\ ~w.told THEN [w EXCEPT !.pc = "work", !.told = TRUE, !.err = FALSE] ELSE Idle)
             /\ Quiet /\ UNCHANGED << left, stopped, fails, crashed >>
Over == /\ w.pc = "done" /\ w' = Idle /\ Quiet /\ UNCHANGED << st, left, stopped, fails, crashed >>
Return(c) == /\ st[c].pc = "told" /\ st' = [st EXCEPT ![c].pc = "idle"] /\ Quiet /\ UNCHANGED << left, w, stopped, fails, crashed >>
Cancel(c) == /\ Cancels /\ st[c].pc \in {"asked", "accepted"} /\ ~st[c].cancelled /\ st' = [st EXCEPT ![c].cancelled = TRUE] /\ Did("cancel", c, TRUE)
             /\ UNCHANGED << left, w, stopped, fails, crashed >>
Stop == /\ Stops /\ ~stopped /\ stopped' = TRUE /\ Did("stop", "-", TRUE) /\ UNCHANGED << st, left, w, fails, crashed >>
Gone == /\ stopped /\ w.pc = "idle" /\ w' = [Idle EXCEPT !.pc = "gone"] /\ Quiet /\ UNCHANGED << st, left, stopped, fails, crashed >>
Own == Over \/ Gone \/ \E c \in Reqs : Accept(c) \/ Decline(c) \/ Refuse(c) \/ Answer(c) \/ Return(c)
Next == Own \/ Stop \/ Work(TRUE) \/ Work(FALSE) \/ \E c \in Reqs : Ask(c) \/ Cancel(c)
(* a requester is taken eventually, if the worker is free again and again *)
Spec == Init /\ [][Next]_vars /\ WF_vars(Over) /\ WF_vars(Gone) /\ WF_vars(Work(TRUE) \/ Work(FALSE))
        /\ \A c \in Reqs : SF_vars(Accept(c)) /\ WF_vars(Decline(c)) /\ WF_vars(Refuse(c)) /\ WF_vars(Answer(c)) /\ WF_vars(Return(c))
Alive == ~crashed
Right == \A c \in Reqs : st[c].pc = "told" =>
           /\ st[c].res = "done" => st[c].ph > Phases /\ ~st[c].err
           /\ st[c].res = "failed" => st[c].err
           /\ st[c].res = "refused" => stopped
One == Cardinality({ c \in Reqs : st[c].pc = "accepted" }) <= 1
EachToldOnce == \A c \in Reqs : (st[c].pc = "asked") ~> (st[c].pc = "told")
View == << st, left, w, stopped, fails, crashed >>
EmitEdge == PrintT("@E " \o ToJson([f |-> View, a |-> act', t |-> << st', left', w', stopped', fails', crashed' >>]))
=============================================================================
