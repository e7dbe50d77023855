------------------------------- MODULE Ingest -------------------------------
(* Runs of the ingest command (cmd/ingest/run.go): the pending files in batches, each batch through the phases its
   strategy asks for, and progress recorded in the journal only after them.  The environment decides how every phase
   ends: well, with an error, with the run having been cancelled meanwhile, or with a crash of the process.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Files,         \* sequence of << lo, hi >>, ascending: the bundles that may be in the directory
          First,         \* those there from the start (indices)
          Strategies, Batches,
          CommitLast, PrefixSize, StopOnFail   \* TRUE; FALSE: weaknesses
VARIABLES cov,      \* entries recorded as completed
          fl,       \* recorded flags << coalesced, updated >>
          size,     \* recorded size of the log
          present,
          run,      \* << >> or the state of the run
          ghost,    \* what really happened: entries stored, coalesced, in the tree
          act
vars == << cov, fl, size, present, run, ghost, act >>
View == << cov, fl, size, present, run, ghost >>

N == Len(Files)
Ent(i) == Files[i][1] .. Files[i][2]
Asc == [i \in 1..N |-> i]
Pending == SelectSeq(Asc, LAMBDA i : i \in present /\ ~(Ent(i) \subseteq cov))
Has(s, p) == CASE p = "ingest" -> s \in {"", "onlyingest"} [] p = "coalesce" -> s \in {"", "skipingest"}
               [] p = "update" -> s \in {"", "skipingest", "onlysmtupdate"}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Prefix == IF 0 \notin cov THEN 0
          ELSE IF PrefixSize THEN CHOOSE n \in 1..(Max(cov) + 1) : n \notin cov /\ \A m \in 0..(n - 1) : m \in cov ELSE Max(cov) + 1
Min(a, b) == IF a < b THEN a ELSE b
Size(r) == IF r.b <= 0 THEN Len(r.todo) ELSE Min(r.b, Len(r.todo))
BatchOf(r) == SubSeq(r.todo, r.at + 1, Min(r.at + Size(r), Len(r.todo)))
EntOf(s) == UNION { Ent(s[i]) : i \in 1..Len(s) }

Idle == run = << >>
Init == /\ cov = {} /\ fl = << FALSE, FALSE >> /\ size = 0 /\ present = First /\ run = << >>
        /\ ghost = [stored |-> {}, coal |-> {}, smt |-> {}] /\ act = [op |-> "Init"]
Appear(i) == /\ Idle /\ i \notin present /\ present' = present \cup {i} /\ act' = [op |-> "Appear", f |-> i]
             /\ UNCHANGED << cov, fl, size, run, ghost >>
Start(s, b, c) == /\ Idle /\ run' = [strat |-> s, b |-> b, todo |-> << >>, at |-> 0, pc |-> "open", res |-> "", can |-> c, mid |-> FALSE]
                  /\ (Has(s, "ingest") \/ b = 0)
                  /\ act' = [op |-> "Start", s |-> s, b |-> b, c |-> c] /\ UNCHANGED << cov, fl, size, present, ghost >>

(* a phase ends with outcome o; next is the run's state when it went well *)
Outcome(o, next) ==
  run' = CASE o = "ok" -> next [] o = "cancel" -> [next EXCEPT !.can = TRUE]
           [] o = "fail" -> (IF StopOnFail THEN [run EXCEPT !.pc = "end", !.res = "error"] ELSE next) [] o = "crash" -> << >>
Call(what, x, o) == act' = [op |-> "Call", what |-> what, x |-> x, o |-> o]
Outcomes == {"ok", "fail", "cancel", "crash"}
Went(o) == o \in {"ok", "cancel"}
Halt == [run EXCEPT !.pc = "end", !.res = "error"]
Done == [run EXCEPT !.pc = "end", !.res = "ok"]

Open(o) == /\ ~Idle /\ run.pc = "open" /\ o # "cancel"
           /\ LET s == run.strat
                  r == [run EXCEPT !.todo = IF Has(s, "ingest") THEN Pending ELSE << >>] IN
              Outcome(o, CASE s = "recordctsize" -> (IF run.can \/ Prefix = 0 THEN [r EXCEPT !.pc = "end", !.res = "error"] ELSE [r EXCEPT !.pc = "size"])
                           [] Has(s, "ingest") -> (IF run.can THEN [r EXCEPT !.pc = "end", !.res = "error"]
                                                   ELSE IF r.todo = << >> THEN [r EXCEPT !.pc = "end", !.res = "ok"] ELSE [r EXCEPT !.pc = "estimate"])
                           [] OTHER -> (IF run.can THEN [r EXCEPT !.pc = "end", !.res = "error"]
                                        ELSE IF Has(s, "coalesce") THEN [r EXCEPT !.pc = "coalesce"] ELSE [r EXCEPT !.pc = "update"]))
           /\ Call("NewJournal", << >>, o) /\ UNCHANGED << cov, fl, size, present, ghost >>
Estimate(o) == /\ ~Idle /\ run.pc = "estimate"
               /\ Outcome(o, IF o = "cancel" THEN Halt ELSE [run EXCEPT !.pc = "before"])
               /\ Call("Estimate", << >>, o) /\ UNCHANGED << cov, fl, size, present, ghost >>
Before(o) == /\ ~Idle /\ run.pc = "before" /\ o # "cancel"
             /\ Outcome(o, [run EXCEPT !.pc = "run"])
             /\ Call("BeforeBatch", << run.at \div Size(run) + 1, (Len(run.todo) - 1) \div Size(run) + 1 >>, o)
             /\ UNCHANGED << cov, fl, size, present, ghost >>
(* what follows a phase of a batch *)
After(p) == LET s == run.strat IN
  CASE p = "run" /\ Has(s, "coalesce") -> "coalesce" [] p \in {"run", "coalesce"} /\ Has(s, "update") -> "update" [] OTHER -> "commit"
Record == cov' = cov \cup EntOf(BatchOf(run))
RunBatch(o) == /\ ~Idle /\ run.pc = "run"
               /\ Outcome(o, [run EXCEPT !.pc = After("run"), !.mid = TRUE])
               /\ ghost' = IF Went(o) THEN [ghost EXCEPT !.stored = @ \cup EntOf(BatchOf(run))] ELSE ghost
               /\ (IF ~CommitLast THEN Record ELSE UNCHANGED cov)
               /\ Call("RunBatch", BatchOf(run), o) /\ UNCHANGED << fl, size, present >>
Coalesce(o) == /\ ~Idle /\ run.pc = "coalesce"
               /\ Outcome(o, IF Has(run.strat, "ingest") THEN [run EXCEPT !.pc = After("coalesce")]
                             ELSE IF o = "cancel" THEN Halt ELSE [run EXCEPT !.pc = "update"])
               /\ ghost' = IF Went(o) THEN [ghost EXCEPT !.coal = ghost.stored] ELSE ghost
               /\ fl' = IF Went(o) /\ ~Has(run.strat, "ingest") THEN << TRUE, FALSE >> ELSE fl
               /\ Call("Coalesce", << >>, o) /\ UNCHANGED << cov, size, present >>
Update(o) == /\ ~Idle /\ run.pc = "update"
             /\ Outcome(o, IF Has(run.strat, "ingest") THEN [run EXCEPT !.pc = After("update")] ELSE Done)
             /\ ghost' = IF Went(o) THEN [ghost EXCEPT !.smt = ghost.stored] ELSE ghost
             /\ fl' = IF Went(o) /\ ~Has(run.strat, "ingest") THEN << TRUE, TRUE >> ELSE fl
             /\ Call("UpdateSMT", << >>, o) /\ UNCHANGED << cov, size, present >>
(* the batch under way when the run is cancelled may also be given up *)
GiveUp == /\ ~Idle /\ run.can /\ run.mid /\ run.pc \in {"coalesce", "update", "commit"}
          /\ run' = Halt /\ act' = [op |-> "GiveUp"] /\ UNCHANGED << cov, fl, size, present, ghost >>
Commit == /\ ~Idle /\ run.pc = "commit" /\ Record
          /\ fl' = << Has(run.strat, "coalesce") \/ Has(run.strat, "update"), Has(run.strat, "update") >>
          /\ LET at == run.at + Len(BatchOf(run)) IN
             run' = IF at >= Len(run.todo) THEN Done ELSE IF run.can THEN Halt ELSE [run EXCEPT !.pc = "before", !.at = at, !.mid = FALSE]
          /\ act' = [op |-> "Commit"] /\ UNCHANGED << size, present, ghost >>
RecordSize(o) == /\ ~Idle /\ run.pc = "size" /\ Outcome(o, Done)
                 /\ size' = IF Went(o) THEN Prefix ELSE size
                 /\ Call("RecordCTSize", << Prefix >>, o) /\ UNCHANGED << cov, fl, present, ghost >>
Return == /\ ~Idle /\ run.pc = "end" /\ run' = << >> /\ act' = [op |-> "Return", res |-> run.res] /\ UNCHANGED << cov, fl, size, present, ghost >>

Next == \/ \E i \in 1..N : Appear(i)
        \/ \E s \in Strategies, b \in Batches, c \in BOOLEAN : Start(s, b, c)
        \/ \E o \in Outcomes : Open(o) \/ Estimate(o) \/ Before(o) \/ RunBatch(o) \/ Coalesce(o) \/ Update(o) \/ RecordSize(o)
        \/ GiveUp \/ Commit \/ Return
Spec == Init /\ [][Next]_vars

(* what the journal says is true *)
Truthful == /\ cov \subseteq ghost.stored
            /\ (fl[2] => cov \subseteq ghost.smt)
            /\ (fl[1] => cov \subseteq ghost.coal \cup ghost.smt)
            /\ \A n \in 0..(size - 1) : n \in cov
(* progress is never lost; after a failure the run only returns *)
Keeps == [][ cov \subseteq cov' /\ (act'.op = "Call" /\ act'.o = "fail" => run'.pc = "end" /\ run'.res = "error" /\ cov' = cov /\ fl' = fl /\ size' = size) ]_vars
(* a run that succeeds has left nothing to do *)
Complete == [][ act'.op = "Return" /\ act'.res = "ok" /\ Has(run.strat, "ingest") => Pending = << >> ]_vars
St(c, f, s, p, r) == [cov |-> c, fl |-> f, size |-> s, present |-> p, run |-> r]   \* what is observable
EmitEdge == PrintT("@E " \o ToJson([f |-> St(cov, fl, size, present, run), a |-> act', t |-> St(cov', fl', size', present', run')]))
=============================================================================
