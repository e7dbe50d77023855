-------------------------------- MODULE Owner --------------------------------
(* A domain owner: for each of its domains it may have a certificate with its key on record; requests are signed with that of the domain. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Domains, Certs, CanOwn, Depth, Weak
VARIABLES rec,         \* domain -> certificate on record, "none"
          keys,        \* ghost: number of keys made
          out,         \* ghost: the last request: [dom, key, by]
          n, act
vars == << rec, keys, out, n, act >>
Init == rec = [d \in Domains |-> "none"] /\ keys = 0 /\ out = << >> /\ n = 0 /\ act = [op |-> "init"]
Ask(d) == /\ LET c == IF Weak = "any-domain" /\ \E e \in Domains : rec[e] # "none" THEN rec[CHOOSE e \in Domains : rec[e] # "none"] ELSE rec[d]
                 ok == c = "none" \/ c \in CanOwn IN
             /\ out' = IF ok THEN << [dom |-> d, key |-> keys + 1, by |-> c] >> ELSE << >>
             /\ act' = [op |-> "Ask", d |-> d, by |-> c, ok |-> ok]
          /\ keys' = keys + 1 /\ UNCHANGED rec
Record(d, c) == c # rec[d] /\ rec' = [rec EXCEPT ![d] = c] /\ act' = [op |-> "Record", d |-> d, c |-> c] /\ UNCHANGED << keys, out >>
Forget(d) == rec[d] # "none" /\ rec' = [rec EXCEPT ![d] = "none"] /\ act' = [op |-> "Record", d |-> d, c |-> "none"] /\ UNCHANGED << keys, out >>
Next == n < Depth /\ n' = n + 1 /\ \E d \in Domains : Ask(d) \/ Forget(d) \/ \E c \in Certs : Record(d, c)
Spec == Init /\ [][Next]_vars
Chained == [][ (act'.op = "Ask" /\ act'.ok) => out'[1].by = rec[act'.d] ]_vars
Kept == [][ act'.op = "Ask" => rec' = rec ]_vars
View == rec
EmitEdge == PrintT("@E " \o ToJson([f |-> rec, a |-> act', t |-> rec']))
=============================================================================
