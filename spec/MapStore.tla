------------------------------ MODULE MapStore ------------------------------
(* What the map server stores, as an observer sees it between calls: certificates with their parents and
   expirations, policies, the names both are associated with, and the per-name lists that are served and
   committed to by the tree.  One action per call: Store (a batch of certificates and policies), Prune,
   Update (coalesce, update the tree, publish the root, clear the work list).                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  None,
  Names,        \* names something can be stored for
  Certs, Pols,
  Parent,       \* Certs -> Certs \cup {None}
  Exp,          \* Certs -> Nat: last instant of validity
  PolName,      \* Pols -> Names
  Batches,      \* set of [id, c: subset of certificates -> names each is given with, p: subset of Pols]
  Cuts,         \* instants at which expired certificates are pruned
  Queries,      \* names that are asked for
  ChainOf       \* Queries -> sequence of names from the registrable domain to the queried name

VARIABLES certs, assoc, pols, passoc, served, act
vars == << certs, assoc, pols, passoc, served, act >>
View == << certs, assoc, pols, passoc, served >>

Nothing == [c |-> {}, p |-> {}]

Init == /\ certs = {} /\ assoc = {} /\ pols = {} /\ passoc = {}
        /\ served = [n \in Names |-> Nothing]
        /\ act = [op |-> "Init"]

RECURSIVE UpTo(_)
UpTo(c) == IF c = None THEN {} ELSE {c} \cup UpTo(Parent[c])       \* the certificate and all its ancestors

BatchCerts(b)  == DOMAIN b.c
BatchAssoc(b)  == { <<n, c>> \in Names \X Certs : c \in DOMAIN b.c /\ n \in b.c[c] }
BatchPAssoc(b) == { <<PolName[p], p>> : p \in b.p }

(* The lists of a name: everything associated with it and all ancestors of that. *)
ListsOf(n, cs, as, ps, pas) ==
  [c |-> (UNION { UpTo(c) : c \in {c \in cs : <<n, c>> \in as} }) \cap cs,
   p |-> { p \in ps : <<n, p>> \in pas }]
Lists(n) == ListsOf(n, certs, assoc, pols, passoc)

Store(b) ==
  /\ certs' = certs \cup BatchCerts(b)
  /\ assoc' = assoc \cup BatchAssoc(b)
  /\ pols' = pols \cup b.p
  /\ passoc' = passoc \cup BatchPAssoc(b)
  /\ UNCHANGED served
  /\ act' = [op |-> "Store", b |-> b.id]

(* A certificate goes if it or one of its ancestors has expired. *)
Gone(t, cs) == { c \in cs : \E a \in UpTo(c) : a \in cs /\ Exp[a] < t }
Prune(t) ==
  /\ certs' = certs \ Gone(t, certs)
  /\ assoc' = { x \in assoc : x[2] \notin Gone(t, certs) }
  /\ UNCHANGED << pols, passoc, served >>
  /\ act' = [op |-> "Prune", t |-> t]

Update ==
  /\ served' = [n \in Names |-> Lists(n)]
  /\ UNCHANGED << certs, assoc, pols, passoc >>
  /\ act' = [op |-> "Update"]

Next == Update \/ (\E b \in Batches : Store(b)) \/ (\E t \in Cuts : Prune(t))
Spec == Init /\ [][Next]_vars

(* The work list: what the next update has to look at, at least. *)
Pending == { n \in Names : served[n] # Lists(n) }

(* ------------------------------------------ properties ------------------------------------------- *)
TypeOK == /\ certs \subseteq Certs /\ assoc \subseteq Names \X certs /\ passoc \subseteq Names \X pols
          /\ \A n \in Names : served[n].p \subseteq pols
AncestorsStored == \A c \in certs : UpTo(c) \subseteq certs
(* Served lists are closed under ancestors and contain nothing that is not reachable from the name. *)
Closed == \A n \in Names : \A c \in served[n].c : UpTo(c) \subseteq served[n].c
(* Pruning is the same as never having stored what it removes: the next update serves the lists of the rest. *)
PruneIsForgetting ==
  [][ act'.op = "Prune" =>
        \A n \in Names : Lists(n)' = ListsOf(n, certs \ Gone(act'.t, certs), assoc, pols, passoc) ]_vars
(* Nothing that is left has an expired ancestor, and nothing is removed without one. *)
PruneExact ==
  [][ act'.op = "Prune" => /\ \A c \in certs' : \A a \in UpTo(c) : Exp[a] >= act'.t
                           /\ \A c \in certs \ certs' : \E a \in UpTo(c) : Exp[a] < act'.t ]_vars
(* Storing the same again changes nothing, in whatever order batches come the contents are their union. *)
StoreMonotone ==
  [][ act'.op = "Store" => /\ certs \subseteq certs' /\ assoc \subseteq assoc' /\ pols \subseteq pols' ]_vars

(* What a query is answered with after an update: one entry per name of the chain, with the lists of that name;
   presence is claimed exactly if there is something.                                                          *)
ServedFor(sv, n) == IF n \in Names THEN sv[n] ELSE Nothing
Answer(sv, q) == [k \in 1..Len(ChainOf[q]) |->
                    [name |-> ChainOf[q][k], present |-> ServedFor(sv, ChainOf[q][k]) # Nothing,
                     c |-> ServedFor(sv, ChainOf[q][k]).c, p |-> ServedFor(sv, ChainOf[q][k]).p]]
AnswersExact == \A q \in Queries : \A e \in {Answer(served, q)[k] : k \in 1..Len(ChainOf[q])} :
                  /\ e.present <=> (e.name \in Names /\ (served[e.name].c # {} \/ served[e.name].p # {}))
                  /\ \A c \in e.c : UpTo(c) \subseteq e.c

(* ------------------------------------ output for the driver -------------------------------------- *)
StateOf(cs, as, ps, pas, sv) ==
  [certs |-> cs, assoc |-> as, pols |-> ps, passoc |-> pas, served |-> sv,
   pend |-> { n \in Names : sv[n] # ListsOf(n, cs, as, ps, pas) }]
EmitEdge == PrintT("@E " \o ToJson([f |-> StateOf(certs, assoc, pols, passoc, served), a |-> IF act'.op = "Update" /\ Queries # {}
                                         THEN [op |-> "Update", ans |-> [q \in Queries |-> Answer(served', q)]] ELSE act',
                                    t |-> StateOf(certs', assoc', pols', passoc', served')]))
=============================================================================
