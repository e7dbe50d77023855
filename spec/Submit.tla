-------------------------------- MODULE Submit --------------------------------
(* A client of a log: a leader hands the leaves to W workers, which add them to the log and then, once the log has grown,
   ask for the proofs of all. A leaf's fate at the log is fixed in advance: what adding it gives, and what asking for it
   gives: "ok", "late" (not found at first), "never" (never found), "none" (an answer without proof), "fail" (an error) or
   "bad" (a tree head that cannot be read).                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Workers, Fates, Adds,
          Before,      \* entries of the log before
          Others,      \* entries others may add meanwhile
          MaxTries,
          Weak         \* "no", or a mistake: "early", "deaf", "forever", "equal", "stale", "twice"
VARIABLES add, fate, phase, next, got, w, size, prev, others, asked, added, failed, okay, lost, act
vars == << add, fate, phase, next, got, w, size, prev, others, asked, added, failed, okay, lost, act >>
Leaves == 1..K
Idle == [leaf |-> 0, tries |-> 0, st |-> "idle"]
N(W) == IF W = 0 THEN {} ELSE 1..W
Init == /\ add \in [Leaves -> Adds] /\ fate \in [Leaves -> Fates] /\ phase = "start" /\ next = 1 /\ got = 0
        /\ w \in { [i \in 1..n |-> Idle] : n \in Workers }
        /\ size = Before /\ prev = 0 /\ others = 0 /\ asked = [l \in Leaves |-> 0] /\ added = [l \in Leaves |-> 0]
        /\ failed = {} /\ okay = {} /\ lost = {} /\ act = "init"
Begin == /\ phase = "start" /\ phase' = (IF K = 0 THEN "wait" ELSE "add") /\ prev' = (IF Weak = "stale" THEN 0 ELSE size) /\ act' = "begin"
         /\ UNCHANGED << add, fate, next, got, w, size, others, asked, added, failed, okay, lost >>
Listening == phase \in {"add", "fetch"}
Give(i) == /\ Listening /\ next <= K /\ w[i].st = "idle" /\ next' = next + 1 /\ w' = [w EXCEPT ![i] = [leaf |-> next, tries |-> 0, st |-> "ask"]] /\ act' = "give"
           /\ UNCHANGED << add, fate, phase, got, size, prev, others, asked, added, failed, okay, lost >>
Done(i, st) == w' = [w EXCEPT ![i].st = st]
Again(i) == IF w[i].tries > MaxTries /\ Weak # "forever" THEN Done(i, "failed")
            ELSE w' = [w EXCEPT ![i].tries = IF Weak = "forever" THEN 0 ELSE @ + 1]
AskAdd(i) == /\ phase = "add" /\ w[i].st = "ask" /\ act' = "queue"
             /\ added' = [added EXCEPT ![w[i].leaf] = IF @ < 2 THEN @ + 1 ELSE @]
             /\ IF add[w[i].leaf] = "ok" THEN Done(i, "ok") ELSE IF Weak = "twice" /\ w[i].tries = 0 THEN w' = [w EXCEPT ![i].tries = 1] ELSE Done(i, "failed")
             /\ UNCHANGED << add, fate, phase, next, got, size, prev, others, asked, failed, okay, lost >>
AskFetch(i) == /\ phase = "fetch" /\ w[i].st = "ask" /\ act' = "ask"
               /\ LET l == w[i].leaf f == IF add[l] = "ok" THEN fate[l] ELSE "never" IN
                  /\ asked' = [asked EXCEPT ![l] = IF @ < 3 THEN @ + 1 ELSE @]
                  /\ CASE f = "ok" \/ (f = "late" /\ w[i].tries > 0) -> Done(i, "ok")
                       [] f \in {"fail", "bad"} -> Done(i, "failed")
                       [] OTHER -> Again(i)
               /\ UNCHANGED << add, fate, phase, next, got, size, prev, others, added, failed, okay, lost >>
Take(i) == /\ Listening /\ w[i].st \in {"ok", "failed"} /\ (Weak = "deaf" => next > K) /\ w' = [w EXCEPT ![i] = Idle] /\ got' = got + 1 /\ act' = "take"
           /\ IF phase = "add" THEN /\ failed' = (IF w[i].st = "failed" THEN failed \cup {w[i].leaf} ELSE failed) /\ UNCHANGED << okay, lost >>
              ELSE /\ okay' = (IF w[i].st = "ok" THEN okay \cup {w[i].leaf} ELSE okay) /\ lost' = (IF w[i].st = "failed" THEN lost \cup {w[i].leaf} ELSE lost)
                   /\ UNCHANGED failed
           /\ UNCHANGED << add, fate, phase, next, size, prev, others, asked, added >>
Finish == /\ Listening /\ next > K /\ (got = K \/ Weak = "early") /\ phase' = (IF phase = "add" THEN "wait" ELSE "done") /\ act' = "finish"
          /\ w' = [i \in DOMAIN w |-> Idle] /\ UNCHANGED << add, fate, next, got, size, prev, others, asked, added, failed, okay, lost >>
Good == { l \in Leaves : add[l] = "ok" /\ added[l] > 0 }
Grow == /\ size < Before + Cardinality(Good) + others /\ size' = size + 1 /\ act' = "grow"
        /\ UNCHANGED << add, fate, phase, next, got, w, prev, others, asked, added, failed, okay, lost >>
Other == /\ others < Others /\ others' = others + 1 /\ act' = "other"
         /\ UNCHANGED << add, fate, phase, next, got, w, size, prev, asked, added, failed, okay, lost >>
Need == prev + K - Cardinality(failed)
Waited == /\ phase = "wait" /\ (IF Weak \in {"equal", "stale"} THEN size = Need ELSE size >= Need)
          /\ phase' = (IF K = 0 THEN "done" ELSE "fetch") /\ next' = 1 /\ got' = 0 /\ act' = "waited"
          /\ UNCHANGED << add, fate, w, size, prev, others, asked, added, failed, okay, lost >>
Stop == phase = "done" /\ UNCHANGED vars
Ws == 1..3
Go == Begin \/ Finish \/ Waited \/ Grow \/ (\E i \in Ws : i \in DOMAIN w /\ (Give(i) \/ AskAdd(i) \/ AskFetch(i) \/ Take(i)))
Next == Go \/ Other \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Go)
(* what is claimed *)
Bad == { l \in Leaves : add[l] # "ok" }
Lost == Bad \cup { l \in Leaves : fate[l] \notin {"ok", "late"} }
Exact == /\ \A l \in Leaves : added[l] <= 1
         /\ phase = "done" => failed = Bad /\ lost = Lost /\ okay = Leaves \ Lost /\ \A l \in Leaves : added[l] = 1
Waits == phase = "fetch" => size >= Before + K - Cardinality(Bad)
Ends == <>(phase = "done")
View == << add, fate, phase, next, got, w, size, prev, others, asked, added, failed, okay, lost >>
Emit == phase = "start" => PrintT("@S " \o ToJson([add |-> add, fate |-> fate, workers |-> Len(w), bad |-> [l \in Leaves |-> l \in Bad], lost |-> [l \in Leaves |-> l \in Lost]]))
=============================================================================
