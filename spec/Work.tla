--------------------------------- MODULE Work ---------------------------------
(* The list of names with work to do, cut into partitions: every partition is coalesced in chunks, all partitions
   independently; then the names are read in bundles, every bundle taking evenly of the partitions that are left.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS P, Most,     \* partitions 1..P with at most Most names each
          Chunks, Bundles,
          Weak         \* "no", or a mistake: "one-chunk", "half", "full", "rewind"
VARIABLES size, chunk, max, left, called,      \* coalescing: how many names of a partition are left; how often it was asked
          phase, off, over, nxt, room, done, seen, twice, big, bundles, act
vars == << size, chunk, max, left, called, phase, off, over, nxt, room, done, seen, twice, big, bundles, act >>
Parts == 1..P
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Init == /\ size \in [Parts -> 0..Most] /\ chunk \in Chunks /\ max \in Bundles
        /\ left = size /\ called = [p \in Parts |-> 0] /\ phase = "coalesce"
        /\ off = [p \in Parts |-> 0] /\ over = [p \in Parts |-> FALSE] /\ nxt = 1 /\ room = 0 /\ done = FALSE
        /\ seen = {} /\ twice = FALSE /\ big = FALSE /\ bundles = 0 /\ act = "init"
\* a worker asks for a chunk until one is empty
Asked(p) == called[p] = -1
Coalesce(p) ==
  /\ phase = "coalesce" /\ ~Asked(p) /\ act' = "chunk"
  /\ LET n == Min(chunk, left[p]) IN
       /\ left' = [left EXCEPT ![p] = @ - n]
       /\ called' = [called EXCEPT ![p] = IF n = 0 \/ Weak = "one-chunk" THEN -1 ELSE 1]
  /\ UNCHANGED << size, chunk, max, phase, off, over, nxt, room, done, seen, twice, big, bundles >>
Start == /\ phase = "coalesce" /\ (\A p \in Parts : Asked(p)) /\ phase' = "read" /\ room' = max /\ act' = "start"
         /\ UNCHANGED << size, chunk, max, left, called, off, over, nxt, done, seen, twice, big, bundles >>
\* partitions that are left, from the next one on
Ring == [i \in Parts |-> ((nxt + i - 2) % P) + 1]
Active == SelectSeq([i \in 1..P |-> Ring[i]], LAMBDA p : ~over[p])
Round ==
  /\ phase = "read" /\ room > 0 /\ Len(Active) > 0 /\ act' = "round"
  /\ LET a == Active
         n == Len(a)
         req == [p \in Parts |-> IF \E i \in 1..n : a[i] = p
                                 THEN LET i == CHOOSE i \in 1..n : a[i] = p IN (room \div n) + (IF i <= room % n THEN 1 ELSE 0) ELSE 0]
         got == [p \in Parts |-> IF off[p] >= size[p] THEN 0 ELSE Min(req[p], size[p] - off[p])]
         new == UNION { { << p, k >> : k \in off[p] + 1 .. off[p] + got[p] } : p \in Parts }
     IN /\ off' = [p \in Parts |-> off[p] + got[p]]
        /\ over' = [p \in Parts |-> over[p] \/ ((\E i \in 1..n : a[i] = p) /\
                        (IF Weak = "half" THEN got[p] <= req[p] \div 2 ELSE IF Weak = "full" THEN got[p] <= req[p] ELSE got[p] < req[p]))]
        /\ seen' = seen \cup new /\ twice' = (twice \/ new \cap seen # {})
        /\ room' = room - Sum(got, Parts) /\ big' = (big \/ Sum(got, Parts) > room)
        /\ nxt' = (a[1] % P) + 1
  /\ UNCHANGED << size, chunk, max, left, called, phase, done, bundles >>
\* the bundle is handed over: the reader ends after one that is the last or empty
Hand == /\ phase = "read" /\ (room <= 0 \/ Len(Active) = 0) /\ act' = "hand"
        /\ LET last == Len(Active) = 0 IN
             /\ done' = last
             /\ IF last \/ room = max THEN phase' = "end" /\ UNCHANGED room
                ELSE phase' = "read" /\ room' = max
        /\ off' = (IF Weak = "rewind" THEN [p \in Parts |-> IF over[p] THEN off[p] ELSE Min(off[p], 1)] ELSE off)
        /\ bundles' = bundles + 1
        /\ UNCHANGED << size, chunk, max, left, called, over, nxt, seen, twice, big >>
Next == Start \/ Round \/ Hand \/ (\E p \in Parts : Coalesce(p)) \/ (phase = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Round) /\ WF_vars(Hand) /\ \A p \in Parts : WF_vars(Coalesce(p))
All == UNION { { << p, k >> : k \in 1..size[p] } : p \in Parts }
AllCoalesced == phase # "coalesce" => \A p \in Parts : left[p] = 0
ReadAll == phase = "end" => seen = All
Once == ~twice
Bounded == ~big
Few == bundles <= Sum(size, Parts) \div max + 2
Ends == <>(phase = "end")
Constraint == bundles <= 2 * P * Most
Emit == PrintT("@S " \o ToJson([size |-> size, chunk |-> chunk, max |-> max]))
=============================================================================
