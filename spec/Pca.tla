-------------------------------- MODULE Pca --------------------------------
(* A policy CA: requests are created with fresh serial numbers, and certificates are issued for them: signed, given a timestamp by every
   log, signed again, submitted to every log, stored. Certificates known to the CA authorise requests made by their owners.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Logs, Keys, Ticks, RootFrom, RootTo, MaxIssued, MaxRequests,
          Weak
VARIABLES serial,      \* the last serial number
          reqs,        \* ghost: number of requests created
          known,       \* certificates the CA knows: sequence of keys; the first is known from the beginning
          run,         \* the request being processed: << >> or its progress
          given,       \* ghost: certificates returned: what they have
          act
vars == << serial, reqs, known, run, given, act >>

Proofs == { [kind |-> "none", by |-> 0], [kind |-> "length", by |-> 0], [kind |-> "unknown", by |-> 0], [kind |-> "unknown-bad", by |-> 0] }
          \cup { [kind |-> k, by |-> c] : k \in {"good", "junk", "other-key", "altered"}, c \in 1..Len(known) }
Acceptable(p) == p.kind \in {"none", "unknown", "unknown-bad", "good"} \/ Weak = "proof-ignored"
InTime(v) == RootFrom <= v[1] /\ v[2] <= RootTo
Init == serial = 0 /\ reqs = 0 /\ known = << "k1" >> /\ run = << >> /\ given = << >> /\ act = [op |-> "init"]

\* a request created by the CA, signed by the owner; what comes back may be altered on its way
Create(v) == /\ run = << >> /\ reqs < MaxRequests
             /\ serial' = IF InTime(v) THEN serial + 1 ELSE serial
             /\ act' = [op |-> "Create", v |-> v, ok |-> InTime(v)] /\ reqs' = reqs + 1
             /\ UNCHANGED << known, run, given >>
Begin(key, p, v) ==
  /\ run = << >> /\ Len(known) <= MaxIssued /\ serial > 0
  /\ run' = IF Acceptable(p) /\ (InTime(v) \/ Weak = "any-time") THEN << [key |-> key, v |-> v, sct |-> {}, sent |-> {}, p |-> p, pc |-> "stamps", res |-> ""] >>
            ELSE << [key |-> key, v |-> v, sct |-> {}, sent |-> {}, p |-> p, pc |-> "end", res |-> "error"] >>
  /\ act' = [op |-> "Begin", key |-> key, p |-> p, v |-> v]
  /\ UNCHANGED << serial, reqs, known, given >>
R == run[1]
Go(r) == run' = << r >>
Fail == Go([R EXCEPT !.pc = "end", !.res = "error"])
Stamp(l, o) == /\ run # << >> /\ R.pc = "stamps" /\ l \notin R.sct
               /\ IF o = "fail" THEN Fail ELSE Go([R EXCEPT !.sct = @ \cup {l}])
               /\ act' = [op |-> "Stamp", l |-> l, o |-> o] /\ UNCHANGED << serial, reqs, known, given >>
Resign == /\ run # << >> /\ R.pc = "stamps" /\ (R.sct = Logs \/ Weak = "log-missing") /\ Go([R EXCEPT !.pc = "submit"])
          /\ act' = [op |-> "Resign"] /\ UNCHANGED << serial, reqs, known, given >>
Submit(l, o) == /\ run # << >> /\ R.pc = "submit" /\ l \notin R.sent
                /\ IF o = "fail" THEN Fail ELSE Go([R EXCEPT !.sent = @ \cup {l}])
                /\ act' = [op |-> "Submit", l |-> l, o |-> o] /\ UNCHANGED << serial, reqs, known, given >>
Store == /\ run # << >> /\ R.pc = "submit" /\ (R.sent = Logs \/ Weak = "store-early")
         /\ known' = Append(known, R.key) /\ Go([R EXCEPT !.pc = IF R.sent = Logs THEN "end" ELSE "submit", !.res = "ok"])
         /\ act' = [op |-> "Store"] /\ UNCHANGED << serial, reqs, given >>
Return == /\ run # << >> /\ R.pc = "end"
          /\ given' = IF R.res = "ok" THEN Append(given, [sct |-> R.sct, sent |-> R.sent, p |-> R.p, v |-> R.v]) ELSE given
          /\ run' = << >> /\ act' = [op |-> "Return", res |-> R.res] /\ UNCHANGED << serial, reqs, known >>
Ranges == { v \in Ticks \X Ticks : v[1] <= v[2] }
Next == \/ \E v \in Ranges : Create(v)
        \/ \E k \in Keys, v \in Ranges : \E p \in Proofs : (InTime(v) \/ p.kind = "none") /\ Begin(k, p, v)
        \/ \E l \in Logs, o \in {"ok", "fail"} : Stamp(l, o) \/ Submit(l, o)
        \/ Resign \/ Store \/ Return
Spec == Init /\ [][Next]_vars

Complete == \A k \in 1..Len(given) : given[k].sct = Logs /\ given[k].sent = Logs /\ given[k].p.kind \notin {"junk", "other-key", "altered", "length"} /\ InTime(given[k].v)
Authorised == Len(known) = Len(given) + 1 \/ run # << >>      \* all that was given, and nothing else, authorises
NoStore == [][ (act'.op = "Return" /\ act'.res = "error") => given' = given /\ Len(known) = Len(given) + 1 ]_vars
Fresh == [][ act'.op = "Create" => (act'.ok <=> serial' = serial + 1) ]_vars
View == << serial, known, run >>
EmitEdge == PrintT("@E " \o ToJson([f |-> View, a |-> act', t |-> << serial', known', run' >>]))
=============================================================================
