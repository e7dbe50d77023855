------------------------------ MODULE Responder ------------------------------
(* The responder of the map server: queries of several parts answered while newer trees are published and loaded.
   A version of the tree stands for its root; a head is the tree in use and the signature made for it.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Queriers, Reloaders, Versions, Parts, Asks, Loads,
          Snapshot,    \* FALSE: every part of an answer looks up the tree and the signature in use anew
          Together,    \* FALSE: the tree is replaced before its signature is made
          Exclusive    \* FALSE: reloads do not exclude each other
VARIABLES published, tree, sig, lock, rl, q, left, floor, act
vars == << published, tree, sig, lock, rl, q, left, floor, act >>
(* floor: the newest version published when a reload that has returned began
   q[x]: the query's parts so far, each << tree, signature >>, and the floor when it began                        *)
Init == /\ published = 1 /\ tree = 1 /\ sig = 1 /\ lock = FALSE /\ floor = 1 /\ act = [who |-> "none", what |-> "init"]
        /\ rl = [r \in Reloaders |-> [pc |-> "idle", from |-> 0, v |-> 0]]
        /\ q = [x \in Queriers |-> [pc |-> "idle", parts |-> << >>, floor |-> 0, snap |-> << 0, 0 >>, loaded |-> 0]]
        /\ left = [x \in Queriers |-> Asks] @@ [x \in Reloaders |-> Loads]
Did(w, a) == act' = [who |-> w, what |-> a]
Publish == /\ published < Versions /\ published' = published + 1 /\ Did("publisher", "publish")
           /\ UNCHANGED << tree, sig, lock, rl, q, left, floor >>
Reload(r) == /\ rl[r].pc = "idle" /\ left[r] > 0 /\ left' = [left EXCEPT ![r] = @ - 1] /\ Did(r, "start")
             /\ rl' = [rl EXCEPT ![r] = [pc |-> "lock", from |-> published, v |-> 0]]
             /\ UNCHANGED << published, tree, sig, lock, q, floor >>
Load(r) == /\ rl[r].pc = "lock" /\ (Exclusive => ~lock) /\ lock' = TRUE /\ Did(r, "step")
           /\ rl' = [rl EXCEPT ![r].pc = "loaded", ![r].v = published]
           /\ UNCHANGED << published, tree, sig, q, left, floor >>
Half(r) == /\ ~Together /\ rl[r].pc = "loaded" /\ tree' = rl[r].v /\ rl' = [rl EXCEPT ![r].pc = "half"] /\ Did(r, "step")
           /\ UNCHANGED << published, sig, lock, q, left, floor >>
Swap(r) == /\ rl[r].pc = (IF Together THEN "loaded" ELSE "half") /\ lock' = FALSE /\ Did(r, "step")
           /\ (Together => tree' = rl[r].v) /\ (~Together => UNCHANGED tree)
           /\ sig' = (IF Together THEN rl[r].v ELSE tree)
           /\ floor' = (IF rl[r].from > floor THEN rl[r].from ELSE floor)
           /\ rl' = [rl EXCEPT ![r].pc = "idle", ![r].v = 0]
           /\ UNCHANGED << published, q, left >>
(* loading or signing fails: the head in use stays *)
Fail(r) == /\ rl[r].pc = "loaded" /\ lock' = FALSE /\ Did(r, "fail") /\ rl' = [rl EXCEPT ![r].pc = "idle", ![r].v = 0]
           /\ UNCHANGED << published, tree, sig, q, left, floor >>
Ask(x) == /\ q[x].pc = "idle" /\ left[x] > 0 /\ left' = [left EXCEPT ![x] = @ - 1] /\ Did(x, "start")
          /\ q' = [q EXCEPT ![x] = [pc |-> "run", parts |-> << >>, floor |-> floor, snap |-> << tree, sig >>, loaded |-> 0]]
          /\ UNCHANGED << published, tree, sig, lock, rl, floor >>
(* the proof of a part is made from a tree, and then the answer is put together *)
Prove(x) == /\ q[x].pc = "run" /\ Len(q[x].parts) < Parts /\ q[x].loaded = 0 /\ Did(x, "step")
            /\ q' = [q EXCEPT ![x].loaded = IF Snapshot THEN q[x].snap[1] ELSE tree]
            /\ UNCHANGED << published, tree, sig, lock, rl, left, floor >>
Entry(x) == /\ q[x].pc = "run" /\ q[x].loaded # 0 /\ Did(x, "step")
            /\ q' = [q EXCEPT ![x].loaded = 0, ![x].parts = Append(@, << q[x].loaded, IF Snapshot THEN q[x].snap[2] ELSE sig >>)]
            /\ UNCHANGED << published, tree, sig, lock, rl, left, floor >>
Done(x) == /\ q[x].pc = "run" /\ Len(q[x].parts) = Parts /\ Did(x, "step")
           /\ q' = [q EXCEPT ![x] = [pc |-> "idle", parts |-> << >>, floor |-> 0, snap |-> << 0, 0 >>, loaded |-> 0]]
           /\ UNCHANGED << published, tree, sig, lock, rl, left, floor >>
Next == Publish \/ (\E r \in Reloaders : Reload(r) \/ Load(r) \/ Half(r) \/ Swap(r) \/ Fail(r))
        \/ (\E x \in Queriers : Ask(x) \/ Prove(x) \/ Entry(x) \/ Done(x))
Spec == Init /\ [][Next]_vars
Consistent == \A x \in Queriers : LET p == q[x].parts IN
                \A k \in 1..Len(p) : p[k][1] = p[k][2] /\ p[k][1] = p[1][1] /\ p[k][1] <= published /\ p[k][1] >= q[x].floor
InUse == (\A r \in Reloaders : rl[r].pc = "idle") => tree = sig /\ tree >= floor
View == << published, tree, sig, lock, rl, q, left, floor >>

EmitEdge == PrintT("@E " \o ToJson([f |-> View, a |-> act', t |-> << published', tree', sig', lock', rl', q', left', floor' >>]))
=============================================================================
