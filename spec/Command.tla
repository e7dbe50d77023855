------------------------------- MODULE Command -------------------------------
(* The ingest command from the outside: its runs, one after the other, on a directory of bundle files, a journal and a
   database.  A run ends well, refuses, or dies at any point (killed, interrupted, or a statement of the database
   failing).  Ingest.tla has the order of the phases, MapStore.tla and MapCycle.tla what the phases do in the database;
   this specification has what is left behind by runs of which only a part happened.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Files,                           \* sequence of << lo, hi >>, ascending
          Units,                           \* domains per file; a unit << i, k >> is a domain that only file i has
          CommitLast, CleanLast, MarkAgain \* TRUE; FALSE: weaknesses
N == Len(Files)
UnitsOf(i) == { << i, k >> : k \in 1..Units }
Of(S) == UNION { UnitsOf(i) : i \in S }
(* st: stored completely; dy: marked as changed; cl: marked, and lists made since; pay: the list of the domain is the
   complete one; tr: the map proves the complete list; done, fl, size: the journal's entries and flags, and the
   recorded size of the log.                                                                                          *)
VARIABLES s, run, out,
          upd,     \* files that became done in a run that was to update the map
          act
vars == << s, run, out, upd, act >>
View == << s, run, out, upd >>
Has(x, p) == CASE p = "ingest" -> x \in {"", "onlyingest"} [] p = "coalesce" -> x \in {"", "skipingest"}
               [] p = "update" -> x \in {"", "skipingest", "onlysmtupdate"}
Zero == [st |-> {}, dy |-> {}, cl |-> {}, pay |-> {}, tr |-> {}, done |-> {}, fl |-> << FALSE, FALSE >>, size |-> 0]
Covered == UNION { Files[i][1] .. Files[i][2] : i \in s.done }
Prefix == IF 0 \notin Covered THEN 0 ELSE CHOOSE n \in 1..100 : n \notin Covered /\ \A m \in 0..(n - 1) : m \in Covered
Min(a, b) == IF a < b THEN a ELSE b
Todo == SelectSeq([i \in 1..N |-> i], LAMBDA i : i \notin s.done)
Size == IF run.b <= 0 THEN Len(run.todo) ELSE Min(run.b, Len(run.todo))
Batch == { run.todo[j] : j \in (run.at + 1) .. Min(run.at + Size, Len(run.todo)) }
Idle == run = << >>
At(p) == ~Idle /\ run.pc = p
Go(p) == run' = [run EXCEPT !.pc = p]
After(p) == CASE p = "run" /\ Has(run.strat, "coalesce") -> "coalesce" [] p \in {"run", "coalesce"} /\ Has(run.strat, "update") -> "update"
              [] Has(run.strat, "ingest") -> "commit" [] OTHER -> "end"
Init == s = Zero /\ run = << >> /\ out = "" /\ upd = {} /\ act = "Init"
Begin(x, b) ==
  /\ run' = [strat |-> x, b |-> b, todo |-> IF Has(x, "ingest") THEN Todo ELSE << >>, at |-> 0,
             pc |-> CASE x = "recordctsize" -> "size" [] Has(x, "ingest") -> (IF Todo = << >> THEN "end" ELSE "run")
                      [] Has(x, "coalesce") -> "coalesce" [] OTHER -> "update"]
  /\ out' = "" /\ act' = "Begin" /\ UNCHANGED << s, upd >>
(* an update alone is for changes whose lists are made *)
Start(x, b) == Idle /\ (Has(x, "ingest") \/ b = 0) /\ (x = "onlysmtupdate" => s.dy \subseteq s.cl) /\ Begin(x, b)

Store(S, D) == /\ At("run") /\ S \cup D \subseteq Of(Batch)
               /\ s' = [s EXCEPT !.st = @ \cup S, !.dy = @ \cup D, !.cl = IF MarkAgain THEN @ \ D ELSE @]
               /\ run' = run /\ act' = "Store" /\ UNCHANGED << out, upd >>
Stored == /\ At("run") /\ Of(Batch) \subseteq s.st /\ Of(Batch) \subseteq (IF MarkAgain THEN s.dy \ s.cl ELSE s.dy)
          /\ (IF CommitLast THEN s' = s ELSE s' = [s EXCEPT !.done = @ \cup Batch])
          /\ Go(After("run")) /\ act' = "Stored" /\ UNCHANGED << out, upd >>
(* lists are made for what is marked and has none; for what is not stored completely they may be complete or not *)
Lists(P) == /\ At("coalesce") /\ P \subseteq s.dy \ s.cl
            /\ s' = [s EXCEPT !.pay = @ \cup P] /\ run' = run /\ act' = "Lists" /\ UNCHANGED << out, upd >>
Tick(C) == /\ At("coalesce") /\ C \subseteq s.dy \ s.cl /\ C \cap s.st \subseteq s.pay
           /\ s' = [s EXCEPT !.cl = @ \cup C] /\ run' = run /\ act' = "Tick" /\ UNCHANGED << out, upd >>
Coalesced == /\ At("coalesce") /\ s.dy = s.cl
             /\ s' = (IF Has(run.strat, "ingest") THEN s ELSE [s EXCEPT !.fl = << TRUE, FALSE >>])
             /\ Go(After("coalesce")) /\ act' = "Coalesced" /\ UNCHANGED << out, upd >>
Clear == s' = [s EXCEPT !.dy = {}, !.cl = {}]
Grow == s' = [s EXCEPT !.tr = @ \cup (s.dy \cap s.pay)]
Update == At("update") /\ Go("clean") /\ (IF CleanLast THEN Grow ELSE Clear) /\ act' = "Update" /\ UNCHANGED << out, upd >>
Clean == At("clean") /\ Go("cleaned") /\ (IF CleanLast THEN Clear ELSE Grow) /\ act' = "Clean" /\ UNCHANGED << out, upd >>
Cleaned == /\ At("cleaned") /\ act' = "Cleaned" /\ UNCHANGED << out, upd >>
           /\ (IF Has(run.strat, "ingest") THEN s' = s /\ Go("commit") ELSE s' = [s EXCEPT !.fl = << TRUE, TRUE >>] /\ Go("end"))
Commit == /\ At("commit")
          /\ s' = [s EXCEPT !.done = @ \cup Batch, !.fl = << Has(run.strat, "coalesce"), Has(run.strat, "update") >>]
          /\ upd' = IF Has(run.strat, "update") THEN upd \cup Batch ELSE upd
          /\ LET at == run.at + Size IN run' = (IF at >= Len(run.todo) THEN [run EXCEPT !.pc = "end"] ELSE [run EXCEPT !.pc = "run", !.at = at])
          /\ act' = "Commit" /\ UNCHANGED out
Record == /\ At("size") /\ Prefix > 0 /\ s' = [s EXCEPT !.size = Prefix] /\ Go("end") /\ act' = "Record" /\ UNCHANGED << out, upd >>
Refuse == /\ At("size") /\ Prefix = 0 /\ run' = << >> /\ out' = "err" /\ act' = "Refuse" /\ UNCHANGED << s, upd >>
Return == At("end") /\ run' = << >> /\ out' = "ok" /\ act' = "Return" /\ UNCHANGED << s, upd >>
Die == ~Idle /\ run' = << >> /\ out' = "dead" /\ act' = "Die" /\ UNCHANGED << s, upd >>
Steps == Stored \/ Coalesced \/ Update \/ Clean \/ Cleaned \/ Commit \/ Record \/ Refuse \/ Return
Next == \/ \E x \in {"", "onlyingest", "skipingest", "onlysmtupdate", "recordctsize"}, b \in 0..2 : Start(x, b)
        \/ (At("run") /\ \E u \in Of(Batch) : Store({u}, {}) \/ Store({}, {u}))
        \/ (At("coalesce") /\ \E u \in s.dy : Lists({u}) \/ Tick({u}))
        \/ Steps \/ Die
Spec == Init /\ [][Next]_vars

(* a file counts as done only when everything of it is stored; what is done is in the map, or marked as to be done *)
DoneStored == Of(s.done) \subseteq s.st
NotLost == Of(s.done) \subseteq s.dy \cup (s.pay \cap s.tr)
DoneMapped == Of(upd) \subseteq s.tr
FlagTrue == s.fl[2] => Of(s.done) \subseteq s.tr 
SizeTrue == \A n \in 0..(s.size - 1) : n \in Covered
(* nothing that was reached is undone, in whatever order runs live and die *)
Keeps == [][ s.st \subseteq s'.st /\ s.pay \subseteq s'.pay /\ s.tr \subseteq s'.tr /\ s.done \subseteq s'.done ]_vars
(* a run that succeeds leaves nothing to do *)
Finished == [][ act' = "Return" =>
                 /\ (Has(run.strat, "ingest") => s.done = 1..N)
                 /\ (Has(run.strat, "ingest") /\ Has(run.strat, "update") /\ run.todo # << >> => Of(1..N) \subseteq s.tr /\ s.dy = {})
                 /\ (run.strat = "skipingest" => s.dy = {} /\ Of(s.done) \subseteq s.tr) ]_vars
=============================================================================
