------------------------------ MODULE Pipeline ------------------------------
(* The pipeline protocol (pkg/pipeline), one goroutine step at a time.  Stages are connected by channels that are
   rendezvous points; errors travel backwards over their own channels, through relays where a stage has several
   next stages and through forwarders and a broadcaster where several stages share one channel.
   A scenario gives the shape, the way outputs are sent, the items, where processing fails and which stage is started
   again when it asks to end.                                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Scenarios,
          GiveUpTogether, \* FALSE: an error met while sending stops only the send that met it, and a closed error
                          \* channel overwrites it with "no error"
          ReportFirst,    \* FALSE: a stage waits for its next stages to end before it reports its error backwards
          TellEnd,        \* FALSE: a stage with several next stages does not notice that one of them has ended
          Discard,        \* FALSE: a stage that waits after an error reads no data any more
          ReadAll         \* FALSE: only the first error of the next stages is read, and only the first is returned
VARIABLES sc,             \* the scenario
          pc,             \* of each stage: recv, send, close, tell, wait, again, done
          pend,           \* outputs still to be sent: sequence of << output index, item >>
          bad,            \* the stage ends after sending
          got,            \* items each stage processed, in order
          err,            \* the last error a stage has, as the set of stages it comes from
          agg,            \* what the reader of each input of a stage with several inputs holds
          closes,         \* how many of its senders have closed a channel
          relay, rslot,   \* readers of the error channels of a stage with several outputs; << what they read >>
          fslot, bslot, bto, \* forwarders, and the broadcaster with its remaining receivers, of shared channels
          sniff,          \* the error the forwarder of the stage that is started again holds
          left,           \* next item the source makes
          hit,            \* stages where processing failed
          ended,          \* stages that have seen the end of their input
          told, ret       \* what the one waiting was told so far, and his result
vars == << sc, pc, pend, bad, got, err, agg, closes, relay, rslot, fslot, bslot, bto, sniff, left, hit, ended, told, ret >>
flow == << got, pend, bad, err, hit >>                                  \* changed by processing
errs == << relay, rslot, fslot, bslot, bto, sniff >>                           \* changed by error transport

(* a scenario: [id, n, out, in, snd, rcv, route, fail, late, mode, last, ends, auto, aff]:  out[s], in[s]: sequences of channels;
   snd[c], rcv[c]: sets of stages; route[s][x]: sequence of output indices of item x at stage s; fail, late: sets of <<s, x>>, where processing fails before or after
   sending the outputs;
   mode[s]: how outputs are sent; last: stages that make an item of their own, n + s, when their input ends;
   ends: set of <<s, x>>, s asks to end after x; auto: the stage that is then resumed (0: none), with aff after it     *)
St == 1..Len(sc.out)
Ch == 1..Len(sc.snd)
Out(s) == sc.out[s]
Shared(c) == Cardinality(sc.snd[c]) > 1 \/ Cardinality(sc.rcv[c]) > 1
Source == 1
None == 0
NoErr == {}
Running == {0}             \* nobody was told the outcome yet

Init == /\ sc \in Scenarios
        /\ pc = [s \in St |-> "recv"]
        /\ pend = [s \in St |-> << >>] /\ bad = [s \in St |-> FALSE]
        /\ got = [s \in St |-> << >>] /\ err = [s \in St |-> NoErr]
        /\ agg = [s \in St |-> [k \in 1..Len(sc.in[s]) |-> None]]
        /\ closes = [c \in Ch |-> 0]
        /\ relay = [s \in St |-> [i \in 1..Len(sc.out[s]) |-> TRUE]]
        /\ rslot = [s \in St |-> [i \in 1..Len(sc.out[s]) |-> << >>]]
        /\ fslot = [t \in St |-> NoErr]
        /\ bslot = [c \in Ch |-> NoErr] /\ bto = [c \in Ch |-> {}]
        /\ sniff = NoErr /\ left = 1 /\ hit = {} /\ ended = [s \in St |-> FALSE] /\ told = NoErr /\ ret = Running

ClosedCh(c) == closes[c] = Cardinality(sc.snd[c])
Multi(s) == Len(sc.in[s]) > 1

(* ------------------------------------------------ data ------------------------------------------------ *)
(* stage t processes item x; pcs, pends, errz, hits: program counters, outputs, errors, failures otherwise *)
Process(t, x, pcs, pends, errz, hits) ==
  IF << t, x >> \in sc.fail
  THEN /\ pc' = [pcs EXCEPT ![t] = "close"] /\ err' = [errz EXCEPT ![t] = {t}] /\ hit' = hits \cup {t}
       /\ pend' = pends /\ UNCHANGED bad
  ELSE LET r == sc.route[t][x]  e == << t, x >> \in sc.ends \/ x = sc.n + t IN
       /\ pend' = [pends EXCEPT ![t] = [m \in 1..Len(r) |-> << r[m], x >>]]
       /\ pc' = [pcs EXCEPT ![t] = IF r # << >> THEN "send" ELSE IF e THEN "close" ELSE "recv"]
       /\ bad' = [bad EXCEPT ![t] = e] /\ err' = errz /\ hit' = hits
Make == \* the source makes its next item
  /\ pc[Source] = "recv" /\ left <= sc.n /\ left' = left + 1
  /\ Process(Source, left, pc, pend, err, hit) /\ got' = [got EXCEPT ![Source] = Append(@, left)]
  /\ UNCHANGED << sc, agg, closes, errs, ended, told, ret >>
NoMore == \* ... or has no more
  /\ pc[Source] = "recv" /\ left > sc.n
  /\ pc' = [pc EXCEPT ![Source] = "close"] /\ ended' = [ended EXCEPT ![Source] = TRUE]
  /\ UNCHANGED << sc, flow, agg, closes, errs, left, told, ret >>

Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Sendable(s) == IF pc[s] # "send" THEN {} ELSE IF sc.mode[s] = "seq" THEN {1} \cap (1..Len(pend[s])) ELSE 1..Len(pend[s])
Fails(s, x, q) == q = << >> /\ << s, x >> \in sc.late
AfterSend(s, x, q) == IF q # << >> THEN "send" ELSE IF bad[s] \/ Fails(s, x, q) THEN "close" ELSE "recv"
Deliver(s, k) ==
  \E c \in {Out(s)[pend[s][k][1]]} : \E t \in sc.rcv[c] :
    LET x == pend[s][k][2]
        q == Without(pend[s], k)
        pcs == [pc EXCEPT ![s] = AfterSend(s, x, q)]
        pends == [pend EXCEPT ![s] = q]
        errz == IF Fails(s, x, q) THEN [err EXCEPT ![s] = {s}] ELSE err
        hits == IF Fails(s, x, q) THEN hit \cup {s} ELSE hit IN
    IF Multi(t)
    THEN \E j \in 1..Len(sc.in[t]) :
           /\ sc.in[t][j] = c /\ agg[t][j] = None
           /\ agg' = [agg EXCEPT ![t][j] = x]
           /\ pend' = pends /\ pc' = pcs /\ err' = errz /\ hit' = hits
           /\ UNCHANGED << got, bad >>
    ELSE /\ pc[t] = "recv"
         /\ got' = [got EXCEPT ![t] = Append(@, x)]
         /\ Process(t, x, pcs, pends, errz, hits)
         /\ UNCHANGED agg
(* a stage with an error that waits for its next stages throws away what it is still sent *)
Discards(t) == Discard /\ pc[t] = "wait" /\ err[t] # NoErr
Throw(s, k) ==
  \E c \in {Out(s)[pend[s][k][1]]} : \E t \in sc.rcv[c] :
    LET x == pend[s][k][2]  q == Without(pend[s], k) IN
    /\ ~Multi(t) /\ Discards(t)
    /\ pend' = [pend EXCEPT ![s] = q] /\ pc' = [pc EXCEPT ![s] = AfterSend(s, x, q)]
    /\ err' = IF Fails(s, x, q) THEN [err EXCEPT ![s] = {s}] ELSE err
    /\ hit' = IF Fails(s, x, q) THEN hit \cup {s} ELSE hit
    /\ UNCHANGED << got, bad, agg >>
ThrowAgg(t) == /\ Multi(t) /\ Discards(t)
               /\ \E j \in 1..Len(sc.in[t]) : agg[t][j] # None /\ agg' = [agg EXCEPT ![t][j] = None]
               /\ UNCHANGED << sc, pc, flow, closes, errs, left, ended, told, ret >>
Send(s) == /\ \E k \in Sendable(s) : Deliver(s, k) \/ Throw(s, k)
           /\ UNCHANGED << sc, closes, errs, left, ended, told, ret >>
FromAgg(t) == /\ Multi(t) /\ pc[t] = "recv"
              /\ \E j \in 1..Len(sc.in[t]) : /\ agg[t][j] # None /\ Process(t, agg[t][j], pc, pend, err, hit)
                                             /\ got' = [got EXCEPT ![t] = Append(@, agg[t][j])]
                                             /\ agg' = [agg EXCEPT ![t][j] = None]
              /\ UNCHANGED << sc, closes, errs, left, ended, told, ret >>
InputEnds(t) == /\ t # Source /\ pc[t] = "recv"
                /\ \A j \in 1..Len(sc.in[t]) : ClosedCh(sc.in[t][j]) /\ agg[t][j] = None
                /\ ended' = [ended EXCEPT ![t] = TRUE]
                /\ IF t \in sc.last THEN Process(t, sc.n + t, pc, pend, err, hit)
                   ELSE pc' = [pc EXCEPT ![t] = "close"] /\ UNCHANGED << pend, bad, err, hit >>
                /\ UNCHANGED << sc, got, agg, closes, errs, left, told, ret >>

(* ----------------------------------------------- errors ----------------------------------------------- *)
(* the error channel of stage t; that of the stage that is started again is read by a forwarder *)
ErrClosed(t) == pc[t] = "done" /\ (t = sc.auto => sniff = NoErr)
Offers(t) == IF t = sc.auto THEN sniff # NoErr ELSE pc[t] = "tell"
Offer(t) == IF t = sc.auto THEN sniff ELSE err[t]
AfterTell(t) == IF ReportFirst THEN "wait" ELSE "done"
TakenFrom(t, pcs) == /\ pc' = IF t = sc.auto THEN pcs ELSE [pcs EXCEPT ![t] = AfterTell(t)]
                     /\ sniff' = IF t = sc.auto THEN NoErr ELSE sniff
Reported(t) == TakenFrom(t, pc)
Sniff == /\ sc.auto # 0 /\ sniff = NoErr /\ pc[sc.auto] = "tell"
         /\ sniff' = err[sc.auto] /\ pc' = [pc EXCEPT ![sc.auto] = AfterTell(sc.auto)]
         /\ UNCHANGED << sc, flow, agg, closes, relay, rslot, fslot, bslot, bto, left, ended, told, ret >>
OneRcv(c) == CHOOSE t \in sc.rcv[c] : TRUE
Direct(s) == Len(Out(s)) = 1

(* relays of a stage with several outputs (these are never shared channels) *)
RelayGets(s, i) == LET t == OneRcv(Out(s)[i]) IN
  /\ ~Direct(s) /\ Out(s) # << >> /\ relay[s][i] /\ rslot[s][i] = << >>
  /\ \/ /\ Offers(t) /\ rslot' = [rslot EXCEPT ![s][i] = << Offer(t) >>] /\ Reported(t) /\ UNCHANGED relay
     \/ /\ ErrClosed(t) /\ relay' = [relay EXCEPT ![s][i] = FALSE] /\ UNCHANGED << pc, sniff >>
        /\ rslot' = IF TellEnd THEN [rslot EXCEPT ![s][i] = << NoErr >>] ELSE rslot
  /\ UNCHANGED << sc, flow, agg, closes, fslot, bslot, bto, left, ended, told, ret >>
(* forwarders and broadcaster of a shared channel *)
Forwarder(c, t) ==
  /\ Shared(c) /\ t \in sc.rcv[c] /\ fslot[t] = NoErr /\ Offers(t)
  /\ fslot' = [fslot EXCEPT ![t] = Offer(t)] /\ Reported(t)
  /\ UNCHANGED << sc, flow, agg, closes, relay, rslot, bslot, bto, left, ended, told, ret >>
Broadcast(c) ==
  /\ Shared(c) /\ bto[c] = {}
  /\ \E t \in sc.rcv[c] : /\ fslot[t] # NoErr
                          /\ bslot' = [bslot EXCEPT ![c] = fslot[t]] /\ fslot' = [fslot EXCEPT ![t] = NoErr]
  /\ bto' = [bto EXCEPT ![c] = sc.snd[c]]
  /\ UNCHANGED << sc, pc, flow, agg, closes, relay, rslot, sniff, left, ended, told, ret >>
SharedEnds(c) == bto[c] = {} /\ \A t \in sc.rcv[c] : ErrClosed(t) /\ fslot[t] = NoErr

(* the errors a stage can read next: << value, kind, index >> *)
Readable(s) ==
  IF Out(s) = << >> THEN {}
  ELSE IF Direct(s)
       THEN LET c == Out(s)[1] IN
            IF Shared(c) THEN (IF s \in bto[c] THEN { << bslot[c], "b", c >> } ELSE {})
                              \cup (IF SharedEnds(c) THEN { << NoErr, "end", 0 >> } ELSE {})
            ELSE LET t == OneRcv(c) IN
                 (IF Offers(t) THEN { << Offer(t), "t", t >> } ELSE {}) \cup (IF ErrClosed(t) THEN { << NoErr, "end", 0 >> } ELSE {})
       ELSE { << rslot[s][i][1], "r", i >> : i \in {i \in 1..Len(Out(s)) : rslot[s][i] # << >>} }
            \cup (IF \A i \in 1..Len(Out(s)) : ~relay[s][i] /\ rslot[s][i] = << >> THEN { << NoErr, "end", 0 >> } ELSE {})
ReadEffect(s, e, pcs) ==   \* the rest of the system when s has read e; pcs: program counters otherwise
  /\ UNCHANGED << relay, fslot, bslot >>
  /\ CASE e[2] = "b" -> bto' = [bto EXCEPT ![e[3]] = @ \ {s}] /\ pc' = pcs /\ UNCHANGED << rslot, sniff >>
       [] e[2] = "t" -> TakenFrom(e[3], pcs) /\ UNCHANGED << bto, rslot >>
       [] e[2] = "r" -> rslot' = [rslot EXCEPT ![s][e[3]] = << >>] /\ pc' = pcs /\ UNCHANGED << bto, sniff >>
       [] e[2] = "end" -> pc' = pcs /\ UNCHANGED << bto, rslot, sniff >>
Rest == UNCHANGED << sc, got, hit, agg, closes, left, ended, told, ret >>

ErrWhileReading(s) ==
  /\ pc[s] = "recv" /\ \E e \in Readable(s) : /\ err' = [err EXCEPT ![s] = e[1]]
                                              /\ ReadEffect(s, e, [pc EXCEPT ![s] = "close"])
  /\ UNCHANGED << pend, bad >> /\ Rest
ErrWhileSending(s) ==
  /\ pc[s] = "send"
  /\ \E e \in Readable(s) :
       LET all == sc.mode[s] = "cyc" \/ GiveUpTogether IN
       \E q \in IF all THEN { << >> } ELSE { Without(pend[s], k) : k \in Sendable(s) } :
         /\ err' = [err EXCEPT ![s] = IF GiveUpTogether THEN @ \cup e[1] ELSE e[1]]
         /\ bad' = [bad EXCEPT ![s] = TRUE] /\ pend' = [pend EXCEPT ![s] = q]
         /\ ReadEffect(s, e, [pc EXCEPT ![s] = IF q = << >> THEN "close" ELSE "send"])
  /\ Rest
CloseOuts(s) ==
  /\ pc[s] = "close"
  /\ closes' = [c \in Ch |-> IF \E i \in 1..Len(Out(s)) : Out(s)[i] = c THEN closes[c] + 1 ELSE closes[c]]
  /\ pc' = [pc EXCEPT ![s] = IF err[s] # NoErr /\ (ReportFirst \/ Out(s) = << >>) THEN "tell" ELSE "wait"]
  /\ UNCHANGED << sc, flow, agg, errs, left, ended, told, ret >>
(* after closing its outputs a stage reads what the next stages report until they have all ended, passing it on *)
Finish(s) == IF s = sc.auto /\ ~ended[s] /\ err[s] = NoErr THEN "again" ELSE "done"
WaitNext(s) ==
  /\ pc[s] = "wait"
  /\ IF Out(s) = << >> THEN /\ pc' = [pc EXCEPT ![s] = Finish(s)] /\ UNCHANGED << err, errs >>
     ELSE \E e \in Readable(s) :
       IF ReportFirst
       THEN /\ err' = IF e[1] = NoErr THEN err ELSE [err EXCEPT ![s] = e[1]]
            /\ ReadEffect(s, e, [pc EXCEPT ![s] = IF e[2] = "end" THEN Finish(s) ELSE IF e[1] = NoErr THEN "wait" ELSE "tell"])
       ELSE /\ err' = [err EXCEPT ![s] = @ \cup e[1]]
            /\ ReadEffect(s, e, [pc EXCEPT ![s] = IF ReadAll /\ e[2] # "end" THEN "wait"
                                                  ELSE IF err[s] \cup e[1] = NoErr THEN Finish(s) ELSE "tell"])
  /\ UNCHANGED << pend, bad >> /\ Rest
(* a stage that asked to end is started again, with the stages after it *)
Again(s) ==
  /\ pc[s] = "again"
  /\ LET A == sc.aff \cup {s} IN
     /\ pc' = [t \in St |-> IF t \in A THEN "recv" ELSE pc[t]]
     /\ ended' = [t \in St |-> IF t \in sc.aff THEN FALSE ELSE ended[t]]
     /\ closes' = [c \in Ch |-> IF sc.snd[c] \subseteq A THEN 0 ELSE closes[c]]
     /\ relay' = [t \in St |-> IF t \in A THEN [i \in 1..Len(sc.out[t]) |-> TRUE] ELSE relay[t]]
  /\ UNCHANGED << sc, flow, agg, rslot, fslot, bslot, bto, sniff, left, told, ret >>
(* the one who waits for the pipeline reads the error channel of the source *)
Waiter ==
  /\ ret = Running
  /\ \/ /\ Offers(Source) /\ Reported(Source) /\ told' = told \cup Offer(Source)
        /\ ret' = IF ReadAll THEN ret ELSE told'
     \/ /\ ErrClosed(Source) /\ ret' = told /\ UNCHANGED << pc, told, sniff >>
  /\ UNCHANGED << sc, flow, agg, closes, relay, rslot, fslot, bslot, bto, left, ended >>

Over == ret # Running /\ UNCHANGED vars
Next == Make \/ NoMore \/ Sniff \/ Waiter \/ Over
        \/ \E s \in St : Send(s) \/ FromAgg(s) \/ ThrowAgg(s) \/ InputEnds(s) \/ ErrWhileReading(s) \/ ErrWhileSending(s) \/ CloseOuts(s)
                         \/ WaitNext(s) \/ Again(s) \/ \E i \in 1..Len(Out(s)) : RelayGets(s, i)
        \/ \E c \in Ch : Broadcast(c) \/ \E t \in St : Forwarder(c, t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

(* --------------------------------------------- properties --------------------------------------------- *)
Count(q, x) == Cardinality({ i \in 1..Len(q) : q[i] = x })
Sum(F(_), S) == LET f[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F(x) + f[T \ {x}] IN f[S]
(* where an item is made *)
Origin(c, x) == IF x <= c.n THEN Source ELSE x - c.n
(* the stages sharing an input treat an item alike: only the first of them is counted *)
First(c, p) == \A h \in 1..Len(c.snd) : p \in c.rcv[h] => \A q \in c.rcv[h] : q >= p
(* how often item x reaches stage s (or one of the stages that share its input) when nothing fails *)
RECURSIVE Due(_, _, _)
Due(c, s, x) ==
  IF s = Origin(c, x) THEN 1
  ELSE LET To(h) == IF s \notin c.rcv[h] THEN 0
                    ELSE LET By(p) == IF First(c, p) \/ p = Origin(c, x)
                                      THEN Due(c, p, x) * Cardinality({ k \in 1..Len(c.route[p][x]) : c.out[p][c.route[p][x][k]] = h })
                                      ELSE 0
                         IN Sum(By, c.snd[h])
       IN Sum(To, 1..Len(c.snd))
Items(c) == (1..c.n) \cup { c.n + s : s \in c.last }
(* the stages that share the input of s *)
Peers(c, s) == UNION ({{s}} \cup { c.rcv[h] : h \in { h \in 1..Len(c.snd) : s \in c.rcv[h] /\ Cardinality(c.rcv[h]) > 1 } })
Reached(s, x) == LET By(t) == Count(got[t], x) IN Sum(By, Peers(sc, s))
(* nothing is processed more often than it was sent *)
AtMostOnce == \A s \in St, x \in Items(sc) : Origin(sc, x) # s \/ x <= sc.n => Reached(s, x) <= Due(sc, s, x)
(* success: only when nothing failed and everything was processed, by all stages, which are finished *)
SuccessMeansAll ==
  ret = NoErr => /\ hit = {} /\ left = sc.n + 1 /\ \A s \in St : pc[s] = "done"
                 /\ \A s \in St, x \in Items(sc) : (Origin(sc, x) = s /\ x > sc.n) \/ Reached(s, x) = Due(sc, s, x)
(* all failures are reported, and nothing else *)
FailureIsTold == ret # Running => ret = hit
AllDone == ret # Running => \A s \in St : pc[s] = "done"
(* where outputs are sent in order they arrive in order *)
RECURSIVE Flat(_, _, _)
Flat(s, c, q) == IF q = << >> THEN << >>
                 ELSE LET r == sc.route[s][q[1]]
                          here == SelectSeq(r, LAMBDA o : Out(s)[o] = c) IN
                      [i \in 1..Len(here) |-> q[1]] \o Flat(s, c, Tail(q))
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Alone(c) == Cardinality(sc.snd[c]) = 1 /\ Cardinality(sc.rcv[c]) = 1
InOrder == \A t \in St \ {Source} : ~Multi(t) /\ Alone(sc.in[t][1]) =>
             \E s \in sc.snd[sc.in[t][1]] :
               sc.mode[s] = "seq" => Prefix(got[t], Flat(s, sc.in[t][1], got[s] \o (IF s \in sc.last THEN << sc.n + s >> ELSE << >>)))
(* after a failure the failing stage processes nothing more, and a stage that was told neither *)
NothingMore == [][ \A s \in St : err[s] # NoErr => got'[s] = got[s] ]_vars
Ends == <>(ret # Running)
(* no deadlock: checked by TLC (Over is the only final state) *)
=============================================================================
