-------------------------------- MODULE Rows --------------------------------
(* From the rows of bundle files to certificates (cmd/ingest): workers take the rows in any order, and do not send
   again what they have sent before; what they send is stored.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rows,           \* set of [id, leaf, chain, expired, bad]
          Workers,
          LeafFromCache,  \* weakness: a row is skipped if its certificate was sent as part of another row's chain
          StopAtCached    \* weakness: what follows a certificate sent before is neither sent nor sent later
VARIABLES left, cache, stored, named, failed
vars == << left, cache, stored, named, failed >>
Elems(s) == { s[i] : i \in 1..Len(s) }
Init == left = Rows /\ cache = [w \in Workers |-> {}] /\ stored = {} /\ named = {} /\ failed = FALSE
First(w, r) == IF \E i \in 1..Len(r.chain) : r.chain[i] \in cache[w]
               THEN CHOOSE i \in 1..Len(r.chain) : r.chain[i] \in cache[w] /\ \A j \in 1..(i - 1) : r.chain[j] \notin cache[w]
               ELSE Len(r.chain) + 1
Sent(w, r) == IF StopAtCached THEN { r.chain[i] : i \in 1..(First(w, r) - 1) } ELSE Elems(r.chain) \ cache[w]
Take(w, r) == /\ r \in left /\ ~failed /\ left' = left \ {r}
              /\ IF r.bad THEN failed' = TRUE /\ UNCHANGED << cache, stored, named >>
                 ELSE IF r.expired \/ (LeafFromCache /\ r.leaf \in cache[w]) THEN UNCHANGED << cache, stored, named, failed >>
                 ELSE /\ stored' = stored \cup {r.leaf} \cup Sent(w, r) /\ named' = named \cup {r.leaf}
                      /\ cache' = [cache EXCEPT ![w] = @ \cup Elems(r.chain)] /\ UNCHANGED failed
Next == \E w \in Workers, r \in Rows : Take(w, r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Good == { r \in Rows : ~r.expired /\ ~r.bad }
Complete == left = {} /\ ~failed => /\ stored = UNION { {r.leaf} \cup Elems(r.chain) : r \in Good }
                                    /\ named = { r.leaf : r \in Good }
Only == /\ stored \subseteq UNION { {r.leaf} \cup Elems(r.chain) : r \in Good } /\ named \subseteq { r.leaf : r \in Good }
Ends == <>(left = {} \/ failed)
Told == [](left = {} /\ (\E r \in Rows : r.bad) => failed)
=============================================================================
