------------------------------ MODULE BulkRuns ------------------------------
(* Bulk ingestion as its user sees it: runs over streams of certificates.  A run that reports success has stored all
   of its stream; one that reports a failure has stored some of it and nothing else.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Streams,        \* set of sets of certificates
          Faults          \* TRUE if the storage may fail
VARIABLES must, may, act
vars == << must, may, act >>
View == << must, may >>
Init == must = {} /\ may = {} /\ act = [op |-> "Init"]
Good(S) == /\ must' = must \cup S
           /\ may' = may \ S
           /\ act' = [op |-> "Run", s |-> S, ok |-> TRUE]
Bad(S)  == /\ Faults
           /\ may' = may \cup (S \ must)
           /\ UNCHANGED must
           /\ act' = [op |-> "Run", s |-> S, ok |-> FALSE]
Prune == /\ must' = {} /\ may' = {} /\ act' = [op |-> "Forget"]     \* everything is removed from the store
Next == Prune \/ \E S \in Streams : Good(S) \/ Bad(S)
Spec == Init /\ [][Next]_vars
Disjoint == must \cap may = {}
NeverLost == [][ act'.op = "Run" => must \subseteq must' ]_vars
St(a, b) == [must |-> a, may |-> b]
EmitEdge == PrintT("@E " \o ToJson([f |-> St(must, may), a |-> act', t |-> St(must', may')]))
=============================================================================
