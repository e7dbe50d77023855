-------------------------------- MODULE Api --------------------------------
(* The map server's interfaces: services (HTTP or HTTPS, and gRPC) of databases, which listen at ports of one machine,
   are stopped by a request or by their context, and may find their port taken; the requests and what they are answered.
   A database holds certificates and policies, more of them in each version; a service proves the version it has loaded. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Web, Grpc, Base,     \* services, and the database of each
          Ports, Versions,
          Stored,              \* set of [b, v, item, kind, name]: held by b from version v on
          Names, Chain, Ill,   \* the names asked; Chain[n]: from the registrable domain down to n; Ill: the malformed ones
          Lists, Broken,       \* lists of identifiers asked; elements that are malformed
          Shared, Lingers, Leaks, Deaf \* FALSE; TRUE: weaknesses
VARIABLES at,     \* service -> its port, 0: none
          hand,   \* service -> the service whose handlers answer its requests
          left,   \* service -> stop requests that something left behind will take
          ver,    \* database -> version
          shown,  \* service -> version its proofs are about
          taken,  \* ports others use
          flight, \* requests on their way: << service, list, answer >>
          act
vars == << at, hand, left, ver, shown, taken, flight, act >>
View == << at, hand, left, ver, shown, taken, flight >>
Svcs == Web \cup Grpc
Bases == { Base[s] : s \in Svcs }
Did(op, s, p, ok) == act' = [op |-> op, s |-> s, p |-> p, ok |-> ok]
Free(p) == p \notin taken /\ \A s \in Svcs : at[s] # p

Held(b, v) == { x \in Stored : x.b = b /\ x.v <= v }
Of(b, v, n, k) == { x.item : x \in { y \in Held(b, v) : y.name = n /\ y.kind = k } }
(* "bad", or an entry per name *)
Proof(b, v, n) == IF n \in Ill THEN [bad |-> TRUE, es |-> << >>]
                  ELSE [bad |-> FALSE, es |-> [i \in 1..Len(Chain[n]) |-> [name |-> Chain[n][i], c |-> Of(b, v, Chain[n][i], "cert"), p |-> Of(b, v, Chain[n][i], "policy")]]]
Kinds(ep) == IF ep = "certs" THEN {"cert"} ELSE IF ep = "policies" THEN {"policy"} ELSE {"cert", "policy"}
Payloads(b, v, ep, l) ==
  IF \E i \in 1..Len(l) : l[i] \in Broken THEN [bad |-> TRUE, es |-> << >>]
  ELSE [bad |-> FALSE, es |-> [i \in 1..Len(l) |-> IF \E x \in Held(b, v) : x.item = l[i] /\ x.kind \in Kinds(ep) THEN l[i] ELSE "null"]]
Eps == {"certs", "policies", "both"}

Init == /\ at = [s \in Svcs |-> 0] /\ hand = [s \in Svcs |-> s] /\ left = [s \in Svcs |-> 0] /\ ver = [b \in Bases |-> 0]
        /\ shown = [s \in Svcs |-> 0] /\ taken = {} /\ flight = {} /\ act = [op |-> "init", s |-> "-", p |-> 0, ok |-> TRUE]
Start(s, p) == /\ at[s] = 0 /\ flight = {} /\ Did("start", s, p, Free(p))
               /\ IF Free(p) THEN /\ at' = [at EXCEPT ![s] = p] /\ UNCHANGED left
                                  /\ hand' = [t \in Svcs |-> IF t = s \/ (Shared /\ s \in Web /\ t \in Web) THEN s ELSE hand[t]]
                                  /\ shown' = IF s \in Grpc THEN [shown EXCEPT ![s] = ver[Base[s]]] ELSE shown
                  ELSE UNCHANGED << at, hand, shown >> /\ left' = IF Lingers /\ s \in Web THEN [left EXCEPT ![s] = @ + 1] ELSE left
               /\ UNCHANGED << ver, taken, flight >>
(* after a stop the service does not listen any more; what was on its way is still answered *)
Stop(s, how) == /\ at[s] # 0 /\ (how = "cancel" => s \in Web) /\ Did(how, s, at[s], TRUE)
                /\ IF left[s] > 0 /\ how = "stop" THEN left' = [left EXCEPT ![s] = @ - 1] /\ UNCHANGED at
                   ELSE IF how = "cancel" /\ Deaf THEN UNCHANGED << at, left >>
                   ELSE at' = [at EXCEPT ![s] = 0] /\ UNCHANGED left
                /\ flight' = IF Leaks THEN { f \in flight : f.s # s } ELSE flight
                /\ UNCHANGED << hand, ver, shown, taken >>
Take(p) == Free(p) /\ taken' = taken \cup {p} /\ Did("take", "-", p, TRUE) /\ UNCHANGED << at, hand, left, ver, shown, flight >>
Give(p) == p \in taken /\ taken' = taken \ {p} /\ Did("give", "-", p, TRUE) /\ UNCHANGED << at, hand, left, ver, shown, flight >>
(* more is stored and the tree replaced; the web services of the database load it *)
Grow(b) == /\ ver[b] < Versions /\ flight = {} /\ \A s \in Grpc : Base[s] = b => at[s] = 0
           /\ ver' = [ver EXCEPT ![b] = @ + 1]
           /\ shown' = [s \in Svcs |-> IF s \in Web /\ Base[s] = b THEN ver[b] + 1 ELSE shown[s]] /\ act' = [op |-> "grow", s |-> b, p |-> 0, ok |-> TRUE]
           /\ UNCHANGED << at, hand, left, taken, flight >>
Send(s, l) == /\ flight = {} /\ s \in Web /\ at[s] # 0 /\ flight' = { [s |-> s, l |-> l, a |-> Payloads(Base[hand[s]], ver[Base[hand[s]]], "certs", l)] }
              /\ Did("send", s, at[s], TRUE) /\ UNCHANGED << at, hand, left, ver, shown, taken >>
Reply == /\ flight # {} /\ flight' = {} /\ Did("reply", (CHOOSE f \in flight : TRUE).s, 0, TRUE) /\ UNCHANGED << at, hand, left, ver, shown, taken >>
Next == \/ \E s \in Svcs, p \in Ports : Start(s, p)
        \/ \E s \in Svcs : Stop(s, "stop") \/ Stop(s, "cancel")
        \/ \E p \in Ports : Take(p) \/ Give(p)
        \/ \E b \in Bases : Grow(b)
        \/ \E s \in Web, l \in Lists : (\A i \in 1..Len(l) : l[i] \notin Broken) /\ Len(l) > 0 /\ Send(s, l)
        \/ Reply
Spec == Init /\ [][Next]_vars
Bound == \A s \in Svcs : left[s] <= 1

(* ---- properties ---- *)
Asks(s) == { [k |-> "proof", n |-> n, l |-> << >>, a |-> Proof(Base[hand[s]], shown[hand[s]], n)] : n \in Names }
           \cup (IF s \in Grpc THEN {} ELSE { [k |-> ep, n |-> "-", l |-> l, a |-> Payloads(Base[hand[s]], ver[Base[hand[s]]], ep, l)] : ep \in Eps, l \in Lists })
OwnAnswers == \A s \in Svcs : at[s] # 0 => hand[s] = s
StopEnds == [][ act'.op \in {"stop", "cancel"} => at'[act'.s] = 0 ]_vars
OnePerPort == \A s, t \in Svcs : s # t /\ at[s] # 0 => at[s] # at[t] /\ at[s] \notin taken
(* answers are as long as what was asked, and consist of what the database of the service holds *)
Exact == \A s \in Svcs : at[s] # 0 => \A q \in Asks(s) :
           /\ q.k # "proof" /\ ~q.a.bad => Len(q.a.es) = Len(q.l) /\ \A i \in 1..Len(q.l) : q.a.es[i] \in {q.l[i], "null"}
           /\ q.k # "proof" => \A i \in 1..Len(q.a.es) : (q.a.es[i] # "null") <=> \E x \in Stored : x.b = Base[s] /\ x.v <= ver[Base[s]] /\ x.item = q.l[i] /\ x.kind \in Kinds(q.k)
           /\ q.k = "proof" => \A i \in 1..Len(q.a.es) : q.a.es[i].c \cup q.a.es[i].p = { x.item : x \in { y \in Stored : y.b = Base[s] /\ y.v <= shown[s] /\ y.name = q.a.es[i].name } }
Answered == [][ \A f \in flight : f \in flight' \/ act'.op = "reply" ]_vars
St == [at |-> at, ver |-> ver, shown |-> shown, taken |-> taken, flight |-> flight, asks |-> [s \in Svcs |-> IF at[s] = 0 THEN {} ELSE Asks(s)]]
Key == << at, ver, shown, taken, flight >>
EmitState == PrintT("@S " \o ToJson([k |-> Key, s |-> St]))
EmitEdge == PrintT("@E " \o ToJson([f |-> Key, a |-> act', t |-> Key']))
=============================================================================
