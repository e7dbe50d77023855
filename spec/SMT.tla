-------------------------------- MODULE SMT --------------------------------
(* The sparse Merkle tree of the map server, as an observer sees it: a map from keys to values with a
   working copy, a committed copy in storage, and a root that is a function of the contents alone
   (SMTree).  The conformance driver evaluates the symbolic hashes with SHA-256.                      *)
EXTENDS SMTree

CONSTANT MaxBatch    \* how many keys one update may touch

(* ---------------------------------------- behaviour ---------------------------------------------- *)
VARIABLES tree,     \* contents of the tree in use
          store,    \* contents that are in storage under the last committed root
          act       \* the step just taken (not part of the state, see View)

vars == << tree, store, act >>
View == << tree, store >>

Empty == [k \in Keys |-> Nil]

Init == tree = Empty /\ store = Empty /\ act = [op |-> "Init"]

Batches == UNION { [S -> Vals \cup {Del}] : S \in {T \in SUBSET Keys : T # {} /\ Cardinality(T) <= MaxBatch} }

Apply(m, b) == [k \in Keys |-> IF k \in DOMAIN b THEN (IF b[k] = Del THEN Nil ELSE b[k]) ELSE m[k]]

Update(b) ==
  /\ tree' = Apply(tree, b)
  /\ store' = store
  /\ act' = [op |-> "Update", b |-> b]

Commit ==
  /\ store' = tree
  /\ tree' = tree
  /\ act' = [op |-> "Commit"]

(* A new tree object is opened on the last committed root. *)
Reload ==
  /\ tree' = store
  /\ store' = store
  /\ act' = [op |-> "Reload"]

Next == Commit \/ Reload \/ \E b \in Batches : Update(b)

Spec == Init /\ [][Next]_vars

(* ------------------------------------------ properties ------------------------------------------- *)
TypeOK == tree \in Contents /\ store \in Contents

(* T01: only updates change contents, and exactly at their keys. *)
Faithful ==
  [][ /\ act'.op = "Update" => \A k \in Keys : IF k \in DOMAIN act'.b
                                              THEN tree'[k] = (IF act'.b[k] = Del THEN Nil ELSE act'.b[k])
                                              ELSE tree'[k] = tree[k]
      /\ act'.op = "Commit" => tree' = tree
      /\ act'.op = "Reload" => tree' = store ]_vars

(* ------------------------------------ output for the driver -------------------------------------- *)
EmitEdge == PrintT("@E " \o ToJson([f |-> View, a |-> act', t |-> <<tree', store'>>]))

ObsOf(m) == [m    |-> m,
             root |-> Root(m),
             prf  |-> [k \in All |-> LET p == Proof(m, k) IN
                         [inc |-> p.inc, leaf |-> p.leaf, path |-> p.path]]]
EmitContents == \A m \in Contents : PrintT("@O " \o ToJson(ObsOf(m)))
=============================================================================
