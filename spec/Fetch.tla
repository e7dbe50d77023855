-------------------------------- MODULE Fetch --------------------------------
(* A fetcher of a log's entries: requests of at most S entries, which the server answers fully, in part or wrongly, are
   put together into batches of P entries; at most Buffer batches wait for the consumer. A fetch may be stopped, and
   another one may be started at any time.                                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ranges, S, P, Buffer, Runs, Bads, Stops,
          Mixed,     \* TRUE: a fetch that was replaced by another one goes on, and delivers to that one's consumer
          Lax,       \* TRUE: an answer with too many or no entries is taken
          Deaf       \* TRUE: a fetch that waits for the consumer doesn't notice that it was stopped
VARIABLES rs, buf, from, erred, told, right, bads, stops, act
vars == << rs, buf, from, erred, told, right, bads, stops, act >>
min(a, b) == IF a < b THEN a ELSE b
Cur == Len(rs)
Did(w, k, s, e) == act' = [what |-> w, kind |-> k, s |-> s, e |-> e]
Quiet == Did("none", "-", 0, 0)
Init == /\ rs = <<>> /\ buf = <<>> /\ from = 0 /\ erred = FALSE /\ right = TRUE /\ told = "-"
        /\ bads = Bads /\ stops = Stops /\ act = [what |-> "init", kind |-> "-", s |-> 0, e |-> 0]
Start == /\ Cur < Runs
         /\ \E g \in Ranges :
              /\ rs' = Append([i \in 1..Cur |-> IF Mixed THEN rs[i] ELSE [rs[i] EXCEPT !.stop = TRUE]],
                              [s |-> g[1], e |-> g[2], pos |-> g[1], base |-> g[1], wrong |-> FALSE, hole |-> FALSE, stop |-> FALSE, pc |-> IF g[1] > g[2] THEN "over" ELSE "ask"])
              /\ buf' = Append(buf, <<>>) /\ from' = g[1] /\ Did("start", "-", g[1], g[2])
         /\ erred' = FALSE /\ told' = "-" /\ UNCHANGED << right, bads, stops >>
BatchEnd(r) == min(r.e, r.base + P - 1)
ReqEnd(r) == min(BatchEnd(r), r.base + ((r.pos - r.base) \div S + 1) * S - 1)
After(r, pos) == [r EXCEPT !.pos = pos, !.pc = IF pos > BatchEnd(r) THEN "send" ELSE "ask"]
Reply(i, k) ==
  LET r == rs[i] IN
  /\ r.pc = "ask" /\ Did("reply", k, i, 0)
  /\ rs' = [rs EXCEPT ![i] = CASE r.stop -> [r EXCEPT !.pc = "over"]
                               [] k = "full" -> After(r, ReqEnd(r) + 1)
                               [] k = "short" -> After(r, r.pos + 1)
                               [] k = "content" -> [After(r, ReqEnd(r) + 1) EXCEPT !.wrong = TRUE]
                               [] Lax /\ k = "none" -> [After(r, ReqEnd(r) + 1) EXCEPT !.hole = TRUE]
                               [] Lax /\ k = "more" -> [After(r, ReqEnd(r) + 1) EXCEPT !.hole = TRUE]
                               [] OTHER -> [r EXCEPT !.pc = "err"]]
  /\ (k = "short" => r.pos < ReqEnd(r))
  /\ (k \notin {"full", "short"} => bads > 0) /\ bads' = (IF k \in {"full", "short"} THEN bads ELSE bads - 1)
  /\ UNCHANGED << buf, from, erred, told, right, stops >>
To(i) == IF Mixed THEN Cur ELSE i
Send(i) ==
  LET r == rs[i]
      fails == r.pc = "err" \/ r.wrong IN
  /\ r.pc \in {"send", "err"} /\ Len(buf[To(i)]) < Buffer /\ Quiet
  /\ buf' = [buf EXCEPT ![To(i)] = Append(@, IF fails THEN << "err" >> ELSE << "batch", r.base, BatchEnd(r), r.hole >>)]
  /\ rs' = [rs EXCEPT ![i] = IF fails \/ BatchEnd(r) = r.e THEN [r EXCEPT !.pc = "over"]
                             ELSE [r EXCEPT !.base = BatchEnd(r) + 1, !.pos = BatchEnd(r) + 1, !.pc = "ask"]]
  /\ UNCHANGED << from, erred, told, right, bads, stops >>
Leave(i) == /\ rs[i].stop /\ rs[i].pc \in (IF Deaf THEN {"ask"} ELSE {"ask", "send", "err"}) /\ rs' = [rs EXCEPT ![i].pc = "over"] /\ Quiet
            /\ UNCHANGED << buf, from, erred, told, right, bads, stops >>
Take == /\ Cur > 0
        /\ LET b == buf[Cur] IN
           \/ /\ b # <<>> /\ buf' = [buf EXCEPT ![Cur] = Tail(b)]
              /\ IF b[1][1] = "err" THEN erred' = TRUE /\ told' = "error" /\ UNCHANGED << from, right >>
                 ELSE from' = b[1][3] + 1 /\ right' = (right /\ b[1][2] = from /\ ~b[1][4]) /\ told' = "batch" /\ UNCHANGED erred
           \/ /\ b = <<>> /\ rs[Cur].pc = "over" /\ told' = "end" /\ UNCHANGED << buf, from, right, erred >>
        /\ Did("take", "-", 0, 0) /\ UNCHANGED << rs, bads, stops >>
Stop == /\ Cur > 0 /\ stops > 0 /\ ~rs[Cur].stop /\ stops' = stops - 1 /\ rs' = [rs EXCEPT ![Cur].stop = TRUE] /\ Did("stop", "-", 0, 0)
        /\ UNCHANGED << buf, from, erred, told, right, bads >>
Kinds == {"full", "short", "none", "more", "fail", "content"}
Next == Start \/ Take \/ Stop \/ \E i \in 1..Cur : Send(i) \/ Leave(i) \/ \E k \in Kinds : Reply(i, k)
Spec == Init /\ [][Next]_vars /\ \A i \in 1..Runs : WF_vars(i \in 1..Cur /\ Leave(i)) /\ WF_vars(i \in 1..Cur /\ Send(i))
InOrder == right
Whole == told = "end" => from = rs[Cur].e + 1 \/ (rs[Cur].s > rs[Cur].e /\ from = rs[Cur].s) \/ erred \/ rs[Cur].stop
Ends == \A i \in 1..Runs : (i \in 1..Cur /\ rs[i].stop) ~> (i \in 1..Cur /\ rs[i].pc = "over")
View == << rs, buf, from, erred, told, bads, stops >>
EmitEdge == PrintT("@E " \o ToJson([f |-> View, a |-> act', t |-> << rs', buf', from', erred', told', bads', stops' >>]))
=============================================================================
