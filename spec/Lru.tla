-------------------------------- MODULE Lru --------------------------------
(* The bounded cache: the identifiers by how recently they were added. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ids, Cap, MaxAdd
VARIABLES order, ever, act      \* most recent first
View == << order, ever >>
vars == << order, ever, act >>
Init == order = << >> /\ ever = {} /\ act = << >>
Use(q, x) == LET rest == SelectSeq(q, LAMBDA y : y # x) IN << x >> \o SubSeq(rest, 1, IF Len(rest) < Cap - 1 THEN Len(rest) ELSE Cap - 1)
RECURSIVE UseAll(_, _)
UseAll(q, xs) == IF xs = << >> THEN q ELSE UseAll(Use(q, xs[1]), Tail(xs))
Lists == UNION { [1..k -> Ids] : k \in 0..MaxAdd }
Add(xs) == order' = UseAll(order, xs) /\ ever' = ever \cup { xs[k] : k \in 1..Len(xs) } /\ act' = xs
Next == \E xs \in Lists : Add(xs)
Spec == Init /\ [][Next]_vars
Bounded == Len(order) <= Cap /\ Cardinality({ order[k] : k \in 1..Len(order) }) = Len(order)
OnlyAdded == { order[k] : k \in 1..Len(order) } \subseteq ever
St(o, e) == [order |-> o, ever |-> e]
EmitEdge == PrintT("@E " \o ToJson([f |-> St(order, ever), a |-> act', t |-> St(order', ever')]))
=============================================================================
