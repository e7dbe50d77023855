------------------------------ MODULE Presence ------------------------------
(* The presence cache (pkg/cache PresenceCache), one atomic step at a time: two sets, of which readers use the current
   one and announce themselves in its counter; a writer changes the set that is not current.                       *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Readers, Writers, Ids, Reads, Adds,
          Recheck,    \* FALSE: a reader does not check, once announced, that its set is still current
          Drain,      \* FALSE: a writer does not wait for the readers of the set that was current
          Lock,       \* FALSE: writers do not exclude each other
          Both        \* FALSE: only the shadow set is updated
VARIABLES sets, cur, cnt, lock, rd, wr, started, returned, n
vars == << sets, cur, cnt, lock, rd, wr, started, returned, n >>
(* rd[r]: [pc, idx, id, must, seen]  must: identifiers whose insertion had returned when the reader began *)
Init == /\ sets = << {}, {} >> /\ cur = 1 /\ cnt = << 0, 0 >> /\ lock = "free"
        /\ rd = [r \in Readers |-> [pc |-> "idle", idx |-> 1, id |-> 0, must |-> {}]]
        /\ wr = [w \in Writers |-> [pc |-> "idle", ids |-> {}]]
        /\ started = {} /\ returned = {} /\ n = [x \in Readers |-> Reads] @@ [x \in Writers |-> Adds]
R(r, f) == rd' = [rd EXCEPT ![r] = f]
Ask(r) == /\ rd[r].pc = "idle" /\ n[r] > 0 /\ n' = [n EXCEPT ![r] = @ - 1]
          /\ \E id \in Ids : R(r, [pc |-> "load", idx |-> 1, id |-> id, must |-> returned])
          /\ UNCHANGED << sets, cur, cnt, lock, wr, started, returned >>
Load(r) == /\ rd[r].pc = "load" /\ R(r, [rd[r] EXCEPT !.pc = "inc", !.idx = cur])
           /\ UNCHANGED << sets, cur, cnt, lock, wr, started, returned, n >>
Inc(r) == /\ rd[r].pc = "inc" /\ cnt' = [cnt EXCEPT ![rd[r].idx] = @ + 1]
          /\ R(r, [rd[r] EXCEPT !.pc = IF Recheck THEN "check" ELSE "read"])
          /\ UNCHANGED << sets, cur, lock, wr, started, returned, n >>
Check(r) == /\ rd[r].pc = "check" /\ R(r, [rd[r] EXCEPT !.pc = IF cur = rd[r].idx THEN "read" ELSE "undo"])
            /\ UNCHANGED << sets, cur, cnt, lock, wr, started, returned, n >>
Undo(r) == /\ rd[r].pc = "undo" /\ cnt' = [cnt EXCEPT ![rd[r].idx] = @ - 1] /\ R(r, [rd[r] EXCEPT !.pc = "load"])
           /\ UNCHANGED << sets, cur, lock, wr, started, returned, n >>
Answer(r) == /\ rd[r].pc = "read" /\ R(r, [rd[r] EXCEPT !.pc = IF rd[r].id \in sets[rd[r].idx] THEN "yes" ELSE "no"])
             /\ UNCHANGED << sets, cur, cnt, lock, wr, started, returned, n >>
Leave(r) == /\ rd[r].pc \in {"yes", "no"} /\ cnt' = [cnt EXCEPT ![rd[r].idx] = @ - 1]
            /\ R(r, [rd[r] EXCEPT !.pc = "idle", !.idx = 1, !.id = 0, !.must = {}])
            /\ UNCHANGED << sets, cur, lock, wr, started, returned, n >>
W(w, f) == wr' = [wr EXCEPT ![w] = f]
Add(w) == /\ wr[w].pc = "idle" /\ n[w] > 0 /\ n' = [n EXCEPT ![w] = @ - 1]
          /\ \E S \in SUBSET Ids : S # {} /\ W(w, [pc |-> "lock", ids |-> S]) /\ started' = started \cup S
          /\ UNCHANGED << sets, cur, cnt, lock, rd, returned >>
Step(w, a, b) == wr[w].pc = a /\ W(w, [wr[w] EXCEPT !.pc = b])
Acquire(w) == /\ (Lock => lock = "free") /\ Step(w, "lock", "wait1") /\ lock' = "held"
              /\ UNCHANGED << sets, cur, cnt, rd, started, returned, n >>
Wait(w, k, a, b) == /\ Step(w, a, b) /\ (Drain => cnt[k] = 0) /\ UNCHANGED << sets, cur, cnt, lock, rd, started, returned, n >>
Begin(w, k, a, b) == /\ Step(w, a, b) /\ UNCHANGED << sets, cur, cnt, lock, rd, started, returned, n >>
Write(w, k, a, b) == /\ Step(w, a, b) /\ sets' = IF k = 1 /\ ~Both THEN sets ELSE [sets EXCEPT ![k] = @ \cup wr[w].ids]
                     /\ UNCHANGED << cur, cnt, lock, rd, started, returned, n >>
Switch(w, k, a, b) == /\ Step(w, a, b) /\ cur' = k /\ UNCHANGED << sets, cnt, lock, rd, started, returned, n >>
Return(w) == /\ wr[w].pc = "unlock" /\ W(w, [pc |-> "idle", ids |-> {}]) /\ lock' = "free" /\ returned' = returned \cup wr[w].ids
             /\ UNCHANGED << sets, cur, cnt, rd, started, n >>
ReaderStep(r) == Load(r) \/ Inc(r) \/ Check(r) \/ Undo(r) \/ Answer(r) \/ Leave(r)
WriterStep(w) == Acquire(w) \/ Wait(w, 2, "wait1", "write2") \/ Begin(w, 2, "write2", "writing2") \/ Write(w, 2, "writing2", "switch2")
                 \/ Switch(w, 2, "switch2", "wait2") \/ Wait(w, 1, "wait2", "write1") \/ Begin(w, 1, "write1", "writing1")
                 \/ Write(w, 1, "writing1", "switch1") \/ Switch(w, 1, "switch1", "unlock") \/ Return(w)
Done == (\A r \in Readers : rd[r].pc = "idle" /\ n[r] = 0) /\ (\A w \in Writers : wr[w].pc = "idle" /\ n[w] = 0) /\ UNCHANGED vars
Next == Done \/ (\E r \in Readers : Ask(r) \/ ReaderStep(r)) \/ (\E w \in Writers : Add(w) \/ WriterStep(w))
Spec == Init /\ [][Next]_vars /\ (\A r \in Readers : SF_vars(ReaderStep(r))) /\ (\A w \in Writers : SF_vars(WriterStep(w)))
(* a set is not read while it is changed, and never changed by two *)
NoRace == \A w \in Writers : \A k \in {1, 2} :
            wr[w].pc = (IF k = 1 THEN "writing1" ELSE "writing2") =>
              /\ \A r \in Readers : rd[r].pc = "read" => rd[r].idx # k
              /\ \A v \in Writers \ {w} : wr[v].pc # wr[w].pc
(* present only if its insertion has started, and always once it had returned *)
Right == \A r \in Readers : /\ rd[r].pc = "yes" => rd[r].id \in started
                            /\ rd[r].pc = "no" => rd[r].id \notin rd[r].must
WritersEnd == \A w \in Writers : wr[w].pc # "idle" ~> wr[w].pc = "idle"
ReadersEnd == \A r \in Readers : rd[r].pc # "idle" ~> rd[r].pc = "idle"
=============================================================================
