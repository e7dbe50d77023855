-------------------------------- MODULE Bulk --------------------------------
(* The bulk ingestion pipeline (updater.Manager), one step of one stage at a time: certificates are sharded to
   workers, which collect them into batches, write each batch to a file, and load the file into the database; in
   parallel the names of each certificate are extracted, sharded again, collected and loaded.  Loading may fail.
   Refines BulkRuns.                                                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Certs, Names, NamesOf, Shard, ShardN,
          W, B, MaxFeed, Runs, Faults,
          RememberNames,  \* a name that was seen once in a run is not sent on again (as it is today: a known finding)
          KeepSeen,       \* weakness: ... nor in later runs
          DropRest,       \* weakness: what is left in the batches at the end of the stream is not stored
          SwallowError    \* weakness: a failed load is not reported
Ws == 1..W
VARIABLES phase,      \* "idle" | "run" | "closing" | "done" | "failed"
          fed, run,   \* certificates of this stream; number of the run
          cq, cb, nq, nb, files, seen,
          stored, assoc, marked, must, may, err
vars == << phase, fed, run, cq, cb, nq, nb, files, seen, stored, assoc, marked, must, may, err >>
Pairs(S) == { << n, c >> \in Names \X Certs : c \in S /\ n \in NamesOf[c] }

Init == /\ phase = "idle" /\ fed = << >> /\ run = 0
        /\ cq = << >> /\ nq = << >>
        /\ cb = [w \in Ws |-> {}] /\ nb = [w \in Ws |-> {}]
        /\ files = {} /\ seen = {} /\ stored = {} /\ assoc = {} /\ marked = {}
        /\ must = {} /\ may = {} /\ err = FALSE
Range(s) == { s[i] : i \in 1..Len(s) }
Start == /\ phase \in {"idle", "done", "failed"} /\ run < Runs
         /\ phase' = "run" /\ run' = run + 1 /\ fed' = << >> /\ err' = FALSE
         /\ cq' = << >> /\ nq' = << >> /\ files' = {}        \* the channels of a failed run are gone, the batches are not
         /\ seen' = IF KeepSeen THEN seen ELSE {}
        /\ UNCHANGED << cb, nb, stored, assoc, marked, must, may >>
Feed(c) == /\ phase = "run" /\ Len(fed) < MaxFeed /\ Len(cq) < 1 /\ Len(nq) < 1
           /\ fed' = Append(fed, c) /\ cq' = Append(cq, c) /\ nq' = Append(nq, c)
           /\ UNCHANGED << phase, run, cb, nb, files, seen, stored, assoc, marked, must, may, err >>
Close == /\ phase = "run" /\ phase' = "closing"
         /\ UNCHANGED << fed, run, cq, cb, nq, nb, files, seen, stored, assoc, marked, must, may, err >>
Active == phase \in {"run", "closing"}
Batch == /\ Active /\ cq # << >>
         /\ LET c == Head(cq)  w == Shard[c]  b == cb[w] \cup {c} IN
              IF Cardinality(b) >= B
              THEN cb' = [cb EXCEPT ![w] = {}] /\ files' = files \cup {[k |-> "c", x |-> b]}
              ELSE cb' = [cb EXCEPT ![w] = b] /\ UNCHANGED files
         /\ cq' = Tail(cq)
         /\ UNCHANGED << phase, fed, run, nq, nb, seen, stored, assoc, marked, must, may, err >>
Extract == /\ Active /\ nq # << >>
           /\ LET c == Head(nq)
                  ps == { << n, c >> : n \in IF RememberNames THEN NamesOf[c] \ seen ELSE NamesOf[c] }
                  all == [w \in Ws |-> nb[w] \cup { p \in ps : ShardN[p[1]] = w }]
                  full == { w \in Ws : Cardinality(all[w]) >= B } IN
                /\ nb' = [w \in Ws |-> IF w \in full THEN {} ELSE all[w]]
                /\ files' = files \cup { [k |-> "n", x |-> all[w]] : w \in full }
                /\ seen' = seen \cup NamesOf[c]
           /\ nq' = Tail(nq)
           /\ UNCHANGED << phase, fed, run, cq, cb, stored, assoc, marked, must, may, err >>
Rest == /\ phase = "closing" /\ cq = << >> /\ nq = << >>
        /\ (\E w \in Ws : cb[w] # {} \/ nb[w] # {})
        /\ cb' = [w \in Ws |-> {}] /\ nb' = [w \in Ws |-> {}]
        /\ files' = IF DropRest THEN files
                    ELSE files \cup { [k |-> "c", x |-> cb[w]] : w \in {w \in Ws : cb[w] # {}} }
                               \cup { [k |-> "n", x |-> nb[w]] : w \in {w \in Ws : nb[w] # {}} }
        /\ UNCHANGED << phase, fed, run, cq, nq, seen, stored, assoc, marked, must, may, err >>
Load(f) == /\ Active /\ f \in files /\ files' = files \ {f}
           /\ IF f.k = "c" THEN stored' = stored \cup f.x /\ UNCHANGED << assoc, marked >>
              ELSE assoc' = assoc \cup f.x /\ marked' = marked \cup { p[1] : p \in f.x } /\ UNCHANGED stored
           /\ UNCHANGED << phase, fed, run, cq, cb, nq, nb, seen, must, may, err >>
(* A load fails; of a file of names some tables may have been filled. *)
LoadFails(f) == /\ Active /\ Faults /\ f \in files /\ files' = files \ {f} /\ err' = TRUE
                /\ IF f.k = "n" THEN \E m \in SUBSET { p[1] : p \in f.x } : marked' = marked \cup m ELSE UNCHANGED marked
                /\ UNCHANGED << phase, fed, run, cq, cb, nq, nb, seen, stored, assoc, must, may >>
Quiet == cq = << >> /\ nq = << >> /\ files = {} /\ \A w \in Ws : cb[w] = {} /\ nb[w] = {}
Finish == /\ phase = "closing" /\ Quiet /\ (SwallowError \/ ~err)
          /\ phase' = "done" /\ must' = must \cup Range(fed) /\ may' = may \ Range(fed)
          /\ UNCHANGED << fed, run, cq, cb, nq, nb, files, seen, stored, assoc, marked, err >>
Fail == /\ Active /\ err /\ ~SwallowError                       \* at any point after the failure
        /\ phase' = "failed" /\ may' = may \cup (Range(fed) \ must)
        /\ UNCHANGED << fed, run, cq, cb, nq, nb, files, seen, stored, assoc, marked, must, err >>
Next == Start \/ Close \/ Batch \/ Extract \/ Rest \/ Finish \/ Fail
        \/ (\E c \in Certs : Feed(c)) \/ (\E f \in files : Load(f) \/ LoadFails(f))
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Close \/ Batch \/ Extract \/ Rest \/ Finish \/ Fail \/ \E f \in files : Load(f))

Complete == /\ must \subseteq stored /\ Pairs(must) \subseteq assoc
            /\ { p[1] : p \in Pairs(must) } \subseteq marked
(* what holds of the associations although names are sent on only once: every name of a stream got one of its certificates *)
Covers(S) == \A n \in Names : (\E c \in S : n \in NamesOf[c]) => \E c \in S : << n, c >> \in assoc
CompleteButShared == /\ must \subseteq stored /\ Covers(must) /\ { p[1] : p \in Pairs(must) } \subseteq marked
Nothing  == /\ stored \subseteq must \cup may \cup Range(fed)
            /\ assoc \subseteq Pairs(must \cup may \cup Range(fed))
            /\ marked \subseteq { p[1] : p \in Pairs(must \cup may \cup Range(fed)) }
Ends == phase = "run" ~> phase \in {"done", "failed"}
(* refinement: a run is one step of BulkRuns (Good or Bad), taken when it ends, and no other step changes must or may *)
Refines == [][ phase' \in {"done", "failed"} /\ phase # phase' =>
                 \/ (phase' = "done" /\ must' = must \cup Range(fed))
                 \/ (phase' = "failed" /\ must' = must /\ may' = may \cup (Range(fed) \ must)) ]_vars
Only == [][ ~(phase' \in {"done", "failed"} /\ phase # phase') => must' = must /\ may' = may ]_vars
AllReportedButShared == [][ phase' = "done" /\ phase # "done" => Range(fed) \subseteq stored /\ Covers(Range(fed)) ]_vars
AllReported == [][ phase' = "done" /\ phase # "done" => Range(fed) \subseteq stored /\ Pairs(Range(fed)) \subseteq assoc ]_vars
=============================================================================
