------------------------------- MODULE Progress -------------------------------
(* Fetching from logs that grow: a cycle goes from log to log, and continues each one at the recorded position up to the
   size it has at that time; the position is recorded once all is stored. Any step may fail, which ends the cycle.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,           \* logs 1..N
          Max, Fails, Cycles,
          Eager,       \* TRUE: the position is recorded with the first batch
          Blind,       \* TRUE: a batch that failed counts as stored
          Shared       \* TRUE: all logs use the same record
VARIABLES size, rec, head, stored, at, open, last, target, fails, cycles, act
vars == << size, rec, head, stored, at, open, last, target, fails, cycles, act >>
Logs == 1..N
R(l) == IF Shared THEN 1 ELSE l
Did(w, l, k, how) == act' = [what |-> w, log |-> l, n |-> k, how |-> how]
Init == /\ size = [l \in Logs |-> 1] /\ rec = [l \in Logs |-> 0] /\ head = [l \in Logs |-> 0] /\ stored = [l \in Logs |-> {}]
        /\ at = 0 /\ open = FALSE /\ last = 0 /\ target = 0 /\ fails = Fails /\ cycles = Cycles /\ act = [what |-> "init", log |-> 0, n |-> 0, how |-> "-"]
Grow(l) == /\ size[l] < Max /\ ~(open /\ at = l /\ last = rec[R(l)]) /\ size' = [size EXCEPT ![l] = @ + 1] /\ Did("grow", l, 1, "-")
           /\ UNCHANGED << rec, head, stored, at, open, last, target, fails, cycles >>
Cycle(restart) == /\ cycles > 0 /\ cycles' = cycles - 1 /\ at' = 1 /\ open' = FALSE /\ Did("cycle", 0, 0, IF restart THEN "restart" ELSE "-")
                  /\ UNCHANGED << size, rec, head, stored, last, target, fails >>
Open == /\ at > 0 /\ ~open /\ open' = TRUE /\ last' = rec[R(at)] /\ target' = size[at] /\ Did("open", at, 0, "-")
        /\ UNCHANGED << size, rec, head, stored, at, fails, cycles >>
OpenFails(how) == /\ at > 0 /\ ~open /\ fails > 0 /\ fails' = fails - 1 /\ at' = 0 /\ Did("open", at, 0, how)
                  /\ UNCHANGED << size, rec, head, stored, open, last, target, cycles >>
(* no more batches: all was fetched, or (how) the log gave less than it promised *)
Skip(how) == /\ at > 0 /\ open /\ (how = "-" => last >= target) /\ (how # "-" => fails > 0 /\ last < target) /\ fails' = (IF how = "-" THEN fails ELSE fails - 1)
             /\ at' = (IF at = N THEN 0 ELSE at + 1) /\ open' = FALSE /\ Did("skip", at, 0, how)
             /\ UNCHANGED << size, rec, head, stored, last, target, cycles >>
New(k) == last..(last + k - 1)
Batch(k) == /\ at > 0 /\ open /\ last + k <= target /\ Did("batch", at, k, "-")
            /\ stored' = [stored EXCEPT ![at] = @ \cup New(k)] /\ last' = last + k
            /\ LET ends == last + k = target \/ Eager IN
               rec' = (IF ends THEN [rec EXCEPT ![R(at)] = target] ELSE rec) /\ head' = (IF ends THEN [head EXCEPT ![R(at)] = target] ELSE head)
            /\ UNCHANGED << size, at, open, target, fails, cycles >>
(* how: the fetch, before or after storing, before or after recording *)
BatchFails(k, how) ==
   /\ at > 0 /\ open /\ last + k <= target /\ fails > 0 /\ fails' = fails - 1 /\ Did("batch", at, k, how)
   /\ (how \in {"record", "recorded"} => last + k = target)
   /\ stored' = (IF how \in {"fetch", "store"} THEN stored ELSE [stored EXCEPT ![at] = @ \cup New(k)])
   /\ rec' = (IF how = "recorded" THEN [rec EXCEPT ![R(at)] = target] ELSE rec) /\ head' = (IF how = "recorded" THEN [head EXCEPT ![R(at)] = target] ELSE head)
   /\ IF Blind /\ how = "store" THEN last' = last + k /\ UNCHANGED << at, open >> ELSE at' = 0 /\ open' = FALSE /\ UNCHANGED last
   /\ UNCHANGED << size, target, cycles >>
Next == \/ \E r \in BOOLEAN : Cycle(r)
        \/ Open \/ \E h \in {"initialise", "position", "size"} : OpenFails(h)
        \/ Skip("-") \/ Skip("short")
        \/ \E l \in Logs : Grow(l)
        \/ \E k \in 1..Max : Batch(k) \/ \E h \in {"fetch", "store", "stored", "record", "recorded"} : BatchFails(k, h)
Spec == Init /\ [][Next]_vars
Behind == \A l \in Logs : rec[R(l)] <= size[l] /\ \A i \in 0..(rec[R(l)] - 1) : i \in stored[l]
Heads == \A l \in Logs : head[l] = rec[l]
Resumes == [][Open => last' = rec[R(at)]]_vars
View == << size, rec, head, stored, at, open, last, target, fails, cycles >>
Rec == [size |-> size, rec |-> rec, stored |-> stored, at |-> at, open |-> open, last |-> last, target |-> target, fails |-> fails, cycles |-> cycles]
EmitEdge == PrintT("@E " \o ToJson([f |-> Rec, a |-> act', t |-> Rec']))
=============================================================================
