------------------------------ MODULE MapCycle ------------------------------
(* The update cycle one storage operation at a time, with a crash possible before and after each of them, after
   which the same call is repeated.  At rest the stored state is the one MapStore reaches in one step; the
   published root is complete in storage at every instant.
   MaskAssociations, DeleteBeforePublish and PublishBeforeWrite switch on weaknesses, to see that TLC finds them. *)
EXTENDS MapStore

CONSTANTS MaskAssociations,    \* associations are written only for certificates that did not exist
          DeleteBeforePublish, \* old tree nodes are deleted before the new root is published
          PublishBeforeWrite   \* the root is published before its nodes are stored

VARIABLES rcerts, rassoc, rpols, rpassoc,  \* tables
          dirty,       \* name -> "no" | "new" | "coalesced"
          lists,       \* the per-name lists table
          trees,       \* contents of the trees whose nodes are completely in storage
          root,        \* contents of the tree the root row names
          call,        \* the call in progress, or "none"
          pc,          \* operations of it still to do
          mask,        \* certificates of the batch found to exist
          work         \* the tree being built
cvars == << rcerts, rassoc, rpols, rpassoc, dirty, lists, trees, root, call, pc, mask, work >>

NoCall == [op |-> "none"]
EmptyTree == [n \in Names |-> Nothing]
CInit == /\ Init
         /\ rcerts = {} /\ rassoc = {} /\ rpols = {} /\ rpassoc = {}
         /\ dirty = [n \in Names |-> "no"] /\ lists = EmptyTree
         /\ trees = {EmptyTree} /\ root = EmptyTree
         /\ call = NoCall /\ pc = << >> /\ mask = {} /\ work = EmptyTree

StoreOps  == << "check", "certs", "dirty", "domaincerts", "pdirty", "pols", "domainpols" >>
PruneOps  == << "prune" >>
UpdateOps == << "coalesce", "build" >> \o
  (IF PublishBeforeWrite THEN << "root", "nodes", "delete" >>
   ELSE IF DeleteBeforePublish THEN << "nodes", "delete", "root" >> ELSE << "nodes", "root", "delete" >>) \o << "clean" >>

(* a call begins: MapStore makes its step, the operations are still to come *)
Begin == /\ call = NoCall
         /\ Next
         /\ call' = act'
         /\ pc' = CASE act'.op = "Store" -> StoreOps [] act'.op = "Prune" -> PruneOps [] OTHER -> UpdateOps
         /\ UNCHANGED << rcerts, rassoc, rpols, rpassoc, dirty, lists, trees, root, mask, work >>

TheBatch == CHOOSE b \in Batches : b.id = call.b
Mark(ns) == [n \in Names |-> IF n \in ns THEN "new" ELSE dirty[n]]
NewAssoc == { x \in BatchAssoc(TheBatch) : MaskAssociations => x[2] \notin mask }

Step ==
  /\ call # NoCall /\ pc # << >>
  /\ pc' = Tail(pc)
  /\ UNCHANGED << vars, call >>
  /\ LET o == Head(pc) IN
     CASE o = "check" -> /\ mask' = rcerts \cap BatchCerts(TheBatch)
                         /\ UNCHANGED << rcerts, rassoc, rpols, rpassoc, dirty, lists, trees, root, work >>
       [] o = "certs" -> /\ rcerts' = rcerts \cup (BatchCerts(TheBatch) \ mask)
                         /\ UNCHANGED << rassoc, rpols, rpassoc, dirty, lists, trees, root, mask, work >>
       [] o = "dirty" -> /\ dirty' = Mark({ x[1] : x \in NewAssoc })
                         /\ UNCHANGED << rcerts, rassoc, rpols, rpassoc, lists, trees, root, mask, work >>
       [] o = "domaincerts" -> /\ rassoc' = rassoc \cup NewAssoc
                               /\ UNCHANGED << rcerts, rpols, rpassoc, dirty, lists, trees, root, mask, work >>
       [] o = "pdirty" -> /\ dirty' = Mark({ PolName[p] : p \in TheBatch.p })
                          /\ UNCHANGED << rcerts, rassoc, rpols, rpassoc, lists, trees, root, mask, work >>
       [] o = "pols" -> /\ rpols' = rpols \cup TheBatch.p
                        /\ UNCHANGED << rcerts, rassoc, rpassoc, dirty, lists, trees, root, mask, work >>
       [] o = "domainpols" -> /\ rpassoc' = rpassoc \cup BatchPAssoc(TheBatch)
                              /\ UNCHANGED << rcerts, rassoc, rpols, dirty, lists, trees, root, mask, work >>
       [] o = "prune" -> LET g == Gone(call.t, rcerts) IN     \* a stored procedure; its statements are marked, then deleted
                         /\ rcerts' = rcerts \ g
                         /\ rassoc' = { x \in rassoc : x[2] \notin g }
                         /\ dirty' = Mark({ x[1] : x \in {y \in rassoc : y[2] \in g} })
                         /\ UNCHANGED << rpols, rpassoc, lists, trees, root, mask, work >>
       [] o = "coalesce" -> \* some of the marked names are done, and possibly not yet all
                         \E S \in SUBSET { n \in Names : dirty[n] = "new" } :
                           /\ dirty' = [n \in Names |-> IF n \in S THEN "coalesced" ELSE dirty[n]]
                           /\ lists' = [n \in Names |-> IF n \in S THEN ListsOf(n, rcerts, rassoc, rpols, rpassoc) ELSE lists[n]]
                           /\ UNCHANGED << rcerts, rassoc, rpols, rpassoc, trees, root, mask, work >>
       [] o = "build" -> /\ \A n \in Names : dirty[n] # "new"
                         /\ work' = [n \in Names |-> IF dirty[n] = "coalesced" THEN lists[n] ELSE root[n]]
                         /\ UNCHANGED << rcerts, rassoc, rpols, rpassoc, dirty, lists, trees, root, mask >>
       [] o = "nodes" -> /\ trees' = trees \cup {work}
                         /\ UNCHANGED << rcerts, rassoc, rpols, rpassoc, dirty, lists, root, mask, work >>
       [] o = "root" -> /\ root' = work
                        /\ UNCHANGED << rcerts, rassoc, rpols, rpassoc, dirty, lists, trees, mask, work >>
       [] o = "delete" -> /\ trees' = {work}
                          /\ UNCHANGED << rcerts, rassoc, rpols, rpassoc, dirty, lists, root, mask, work >>
       [] o = "clean" -> /\ dirty' = [n \in Names |-> "no"]
                         /\ UNCHANGED << rcerts, rassoc, rpols, rpassoc, lists, trees, root, mask, work >>

(* coalescing goes on until nothing is left *)
Coalesce == /\ call # NoCall /\ pc # << >> /\ Head(pc) = "build" /\ \E n \in Names : dirty[n] = "new"
            /\ pc' = << "coalesce" >> \o pc
            /\ UNCHANGED << vars, rcerts, rassoc, rpols, rpassoc, dirty, lists, trees, root, call, mask, work >>

(* the process dies between two operations, is started again and repeats the call from its beginning *)
Crash == /\ call # NoCall
         /\ pc' = CASE call.op = "Store" -> StoreOps [] call.op = "Prune" -> PruneOps [] OTHER -> UpdateOps
         /\ mask' = {} /\ work' = EmptyTree
         /\ UNCHANGED << vars, rcerts, rassoc, rpols, rpassoc, dirty, lists, trees, root, call >>

Finish == /\ call # NoCall /\ pc = << >>
          /\ call' = NoCall
          /\ mask' = {} /\ work' = EmptyTree
          /\ UNCHANGED << vars, rcerts, rassoc, rpols, rpassoc, dirty, lists, trees, root, pc >>

CNext == Begin \/ Step \/ Coalesce \/ Crash \/ Finish
CSpec == CInit /\ [][CNext]_<<vars, cvars>>
CView == << View, cvars >>

(* ------------------------------------------ properties ------------------------------------------- *)
RootComplete == root \in trees
AtRest == call = NoCall =>
            /\ rcerts = certs /\ rassoc = assoc /\ rpols = pols /\ rpassoc = passoc
            /\ root = served
            /\ { n \in Names : lists[n] # Lists(n) \/ root[n] # Lists(n) } \subseteq { n \in Names : dirty[n] # "no" }
NothingLeft ==
  [][ (call.op = "Update" /\ call' = NoCall) => \A n \in Names : dirty[n] = "no" /\ lists[n] = served[n] /\ root[n] = served[n]
    ]_<<vars, cvars>>
=============================================================================
