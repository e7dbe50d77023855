------------------------------ MODULE Journal ------------------------------
(* The ingestion journal (cmd/ingest/journal): per log directory the ranges of entries that are completed, kept as a
   sorted list of disjoint ranges that do not touch, and the files still to be ingested.
   A file is [d, lo, hi, sub, gz]: its directory, its range, its place and whether it is compressed.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dirs, Files, Volatile,   \* Volatile: files that may appear and disappear
          MaxCommit,               \* files per commit
          AbsorbLeft, AbsorbAll, Touch \* TRUE; FALSE: weaknesses of the merging of ranges
VARIABLES lists,     \* the recorded ranges: directory -> sequence of << lo, hi >>
          cov,       \* ghost: directory -> set of entries committed
          flags,     \* << coalesced, updated >>
          present,   \* files in the file system
          open,      \* "": no journal in use, otherwise its directory
          plain,     \* plain files are included
          act
vars == << lists, cov, flags, present, open, plain, act >>
View == << lists, cov, flags, present, open, plain >>

(* ---- the list algorithm ---- *)
Reach(a, b) == IF Touch THEN a[1] <= b[2] + 1 /\ b[1] <= a[2] + 1 ELSE a[1] <= b[2] /\ b[1] <= a[2]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == << Min(a[1], b[1]), Max(a[2], b[2]) >>
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RECURSIVE Swallow(_, _, _)
Swallow(q, i, r) == IF i <= Len(q) /\ Reach(r, q[i])
                    THEN IF AbsorbAll THEN Swallow(Del(q, i), i, Join(r, q[i])) ELSE << Del(q, i), i, Join(r, q[i]) >>
                    ELSE << q, i, r >>
Insert(q, r) ==
  LET at == Cardinality({ i \in 1..Len(q) : q[i][1] < r[1] }) + 1
      left == AbsorbLeft /\ at > 1 /\ Reach(q[at - 1], r)
      s == IF left THEN Swallow(Del(q, at - 1), at - 1, Join(q[at - 1], r)) ELSE Swallow(q, at, r) IN
  SubSeq(s[1], 1, s[2] - 1) \o << s[3] >> \o SubSeq(s[1], s[2], Len(s[1]))
RECURSIVE InsertAll(_, _)
InsertAll(q, fs) == IF fs = {} THEN q ELSE LET f == CHOOSE f \in fs : TRUE IN InsertAll(Insert(q, << f.lo, f.hi >>), fs \ {f})

Range(f) == f.lo .. f.hi
Covered(q) == UNION { q[i][1] .. q[i][2] : i \in 1..Len(q) }
Within(q, f) == \E i \in 1..Len(q) : q[i][1] <= f.lo /\ f.hi <= q[i][2]
Pending == IF open = "" THEN {} ELSE { f \in present : f.d = open /\ (f.gz \/ plain) /\ ~Within(lists[open], f) }

Init == /\ lists = [d \in Dirs |-> << >>] /\ cov = [d \in Dirs |-> {}] /\ flags = << FALSE, FALSE >>
        /\ present = Files /\ open = "" /\ plain = FALSE /\ act = [op |-> "Init"]
Open(d, p) == /\ open = "" /\ open' = d /\ plain' = p /\ act' = [op |-> "Open", d |-> d, p |-> p]
              /\ UNCHANGED << lists, cov, flags, present >>
(* leaving: by closing, or by a crash *)
Leave(crash) == /\ open # "" /\ open' = "" /\ plain' = FALSE /\ act' = [op |-> IF crash THEN "Crash" ELSE "Close"]
                /\ UNCHANGED << lists, cov, flags, present >>
Commit(fs, c, u) == /\ open # "" /\ lists' = [lists EXCEPT ![open] = InsertAll(@, fs)]
                    /\ cov' = [cov EXCEPT ![open] = @ \cup UNION { Range(f) : f \in fs }]
                    /\ flags' = << c \/ u, u >>
                    /\ act' = [op |-> "Commit", fs |-> fs, c |-> c, u |-> u]
                    /\ UNCHANGED << present, open, plain >>
(* a commit that contains a malformed name changes nothing *)
CommitBad(fs) == /\ open # "" /\ act' = [op |-> "CommitBad", fs |-> fs] /\ UNCHANGED << lists, cov, flags, present, open, plain >>
Appear(f) == /\ f \notin present /\ present' = present \cup {f} /\ act' = [op |-> "Appear", f |-> f] /\ UNCHANGED << lists, cov, flags, open, plain >>
Vanish(f) == /\ f \in present /\ present' = present \ {f} /\ act' = [op |-> "Vanish", f |-> f] /\ UNCHANGED << lists, cov, flags, open, plain >>
Some(d) == { fs \in SUBSET { f \in Files : f.d = d } : Cardinality(fs) <= MaxCommit }
Next == \/ \E d \in Dirs, p \in BOOLEAN : Open(d, p)
        \/ \E c \in BOOLEAN : Leave(c)
        \/ \E fs \in Some(open) : (\E k \in {<< FALSE, FALSE >>, << TRUE, FALSE >>, << FALSE, TRUE >>} : Commit(fs, k[1], k[2])) \/ CommitBad(fs)
        \/ \E f \in Volatile : Appear(f) \/ Vanish(f)
Spec == Init /\ [][Next]_vars

(* the list is canonical and says exactly what was committed *)
Canonical == \A d \in Dirs : LET q == lists[d] IN
               /\ \A i \in 1..Len(q) : q[i][1] <= q[i][2]
               /\ \A i \in 1..(Len(q) - 1) : q[i][2] + 1 < q[i + 1][1]
Exact == \A d \in Dirs : Covered(lists[d]) = cov[d]
(* a file is pending exactly if not all of it was committed *)
PendingRight == open # "" => Pending = { f \in present : f.d = open /\ (f.gz \/ plain) /\ ~(Range(f) \subseteq cov[open]) }
Grows == [][ \A d \in Dirs : cov[d] \subseteq cov'[d] ]_vars
St(l, fl, pr, o, p, pe) == [lists |-> l, flags |-> fl, present |-> pr, open |-> o, plain |-> p, pending |-> pe]
EmitEdge == PrintT("@E " \o ToJson([f |-> St(lists, flags, present, open, plain, Pending), a |-> act',
                                    t |-> St(lists', flags', present', open', plain', Pending')]))
=============================================================================
