---------------------------- MODULE CommandRuns ----------------------------
(* Which runs of the real command, each seen by what there was before and after it, are runs of Command.tla. *)
EXTENDS Command
CONSTANT Runs   \* [id, pre, post, strat, b, kind, exit]
VARIABLE r
tvars == << vars, r >>
TInit == /\ r \in Runs /\ s = r.pre /\ run = << >> /\ out = "" /\ upd = {} /\ act = "Init"
Post == r.post
(* parts of a step are those that are seen afterwards, or all *)
TNext == /\ UNCHANGED r
         /\ \/ (act = "Init" /\ Begin(r.strat, r.b))
            \/ (At("run") /\ act # "Store" /\ \E all \in BOOLEAN :
                  IF all THEN Store(Of(Batch), Of(Batch)) ELSE Store(Of(Batch) \cap Post.st, Of(Batch) \cap (Post.dy \ Post.cl)))
            \/ (At("coalesce") /\ act \notin {"Lists", "Tick"} /\ \E all \in BOOLEAN :
                  Lists((s.dy \ s.cl) \cap (IF all THEN s.st \cup Post.pay ELSE Post.pay)))
            \/ (At("coalesce") /\ act = "Lists" /\ \E all \in BOOLEAN : Tick((s.dy \ s.cl) \cap (IF all THEN s.dy ELSE Post.cl)))
            \/ Steps \/ Die
TSpec == TInit /\ [][TNext]_tvars
Fits == CASE r.kind = "none" -> r.exit = out
          [] r.kind = "fail" -> r.exit = "err" /\ out \in {"dead", "err"}
          [] r.kind = "kill" -> r.exit = "dead" /\ out = "dead"
          [] r.kind = "term" -> (r.exit = "ok" /\ out = "ok") \/ (r.exit # "ok" /\ out \in {"dead", "err"})
Accepted == (Idle /\ out # "" /\ s = Post /\ Fits) => PrintT("@R " \o ToJson([id |-> r.id]))
=============================================================================
