-------------------------------- MODULE Log --------------------------------
(* A client of an append-only log (RFC 6962): the head it trusts, and what it accepts. Hashes are terms. Logs may share their first
   entries and differ later, and may hold the same entry several times.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Logs, Content,  \* log -> sequence of entries
          N,              \* size of the logs
          Pool,           \* TRUE: proofs are made of any hashes known; FALSE: of proofs of the logs, altered
          MaxPath, Heads,  \* heads that may be trusted
          Weak
VARIABLES trusted, act

RECURSIVE Split(_, _), MTH(_), Path(_, _), Cons(_, _, _)
Split(k, n) == IF 2 * k >= n THEN k ELSE Split(2 * k, n)                  \* largest power of two below n
Sub(s, a, b) == SubSeq(s, a + 1, b)                                      \* entries a .. b-1
MTH(s) == CASE Len(s) = 0 -> << "e" >>
            [] Len(s) = 1 -> << "l", s[1] >>
            [] OTHER -> LET k == Split(1, Len(s)) IN << "n", MTH(Sub(s, 0, k)), MTH(Sub(s, k, Len(s))) >>
Path(m, s) == IF Len(s) <= 1 THEN << >>
              ELSE LET k == Split(1, Len(s)) IN
                   IF m < k THEN Append(Path(m, Sub(s, 0, k)), MTH(Sub(s, k, Len(s)))) ELSE Append(Path(m - k, Sub(s, k, Len(s))), MTH(Sub(s, 0, k)))
Cons(m, s, b) == IF m = Len(s) THEN IF b THEN << >> ELSE << MTH(s) >>
                 ELSE LET k == Split(1, Len(s)) IN
                      IF m <= k THEN Append(Cons(m, Sub(s, 0, k), b), MTH(Sub(s, k, Len(s)))) ELSE Append(Cons(m - k, Sub(s, k, Len(s)), FALSE), MTH(Sub(s, 0, k)))
Entries(l, n) == SubSeq(Content[l], 1, n)
Root == [l \in Logs |-> [n \in 0 .. N |-> MTH(Entries(l, n))]]
Paths == [l \in Logs |-> [n \in 1 .. N |-> [i \in 0 .. n - 1 |-> Path(i, Entries(l, n))]]]
Consist == [l \in Logs |-> [n \in 1 .. N |-> [m \in 1 .. n |-> Cons(m, Entries(l, n), TRUE)]]]

\* checks, after RFC 9162 2.1.3.2 and 2.1.4.2
Odd(x) == x % 2 = 1
H(a, b) == << "n", a, b >>
RECURSIVE Strip(_, _), FoldI(_, _, _, _), FoldC(_, _, _, _, _)
Strip(fn, sn) == IF Odd(fn) \/ fn = 0 THEN << fn, sn >> ELSE Strip(fn \div 2, sn \div 2)
FoldI(fn, sn, r, p) ==
  IF p = << >> THEN IF sn = 0 THEN r ELSE << "bad" >>
  ELSE IF sn = 0 THEN << "bad" >>
  ELSE IF Odd(fn) \/ fn = sn
       THEN LET f == IF Odd(fn) THEN << fn, sn >> ELSE Strip(fn, sn) IN FoldI(f[1] \div 2, f[2] \div 2, H(Head(p), r), Tail(p))
       ELSE FoldI(fn \div 2, sn \div 2, H(r, Head(p)), Tail(p))
Inclusion(h, x, i, p) == IF i < 0 \/ i >= h.size THEN "malformed"
                         ELSE LET r == FoldI(i, h.size - 1, << "l", x >>, p) IN IF r = << "bad" >> THEN "malformed" ELSE IF r = h.root THEN "ok" ELSE "mismatch"
FoldC(fn, sn, fr, sr, p) ==
  IF p = << >> THEN IF sn = 0 THEN << fr, sr >> ELSE << "bad" >>
  ELSE IF sn = 0 THEN << "bad" >>
  ELSE IF Odd(fn) \/ fn = sn
       THEN LET f == IF Odd(fn) THEN << fn, sn >> ELSE Strip(fn, sn) IN FoldC(f[1] \div 2, f[2] \div 2, H(Head(p), fr), H(Head(p), sr), Tail(p))
       ELSE FoldC(fn \div 2, sn \div 2, fr, H(sr, Head(p)), Tail(p))
RECURSIVE Low(_, _), Pow2(_)
Low(fn, sn) == IF Odd(fn) THEN Low(fn \div 2, sn \div 2) ELSE << fn, sn >>
Pow2(x) == x = 1 \/ (x % 2 = 0 /\ x > 0 /\ Pow2(x \div 2))
Extends(a, b, p) ==
  CASE a.size = 0 -> TRUE                                \* nothing is trusted yet
    [] a.size > b.size -> Weak = "shrink"
    [] a.size = b.size -> p = << >> /\ (a.root = b.root \/ Weak = "same-size")
    [] OTHER -> LET q == IF Pow2(a.size) THEN << a.root >> \o p ELSE p IN
                IF p = << >> THEN FALSE
                ELSE LET f == Low(a.size - 1, b.size - 1)  r == FoldC(f[1], f[2], q[1], q[1], Tail(q)) IN
                     Len(r) = 2 /\ (r[1] = a.root \/ Weak = "old-root") /\ r[2] = b.root

Genuine == { [log |-> l, size |-> n, root |-> Root[l][n]] : l \in Logs, n \in 0 .. N }
\* heads with the root of a tree of another size: they describe no tree, though not every one can be told from one that does
Altered == IF Pool THEN {} ELSE UNION { { [log |-> "none", size |-> n, root |-> Root[l][m]] : l \in Logs, m \in (1 .. N) \ {n} } : n \in 1 .. N }
Junk == << "junk" >>
Terms == UNION { { Root[l][n] : n \in 0 .. N } : l \in Logs } \cup UNION { { t[k] : k \in 1 .. Len(t) } : t \in UNION { { Paths[l][n][i] : i \in 0 .. n - 1 } : l \in Logs, n \in 1 .. N } } \cup {Junk}
RECURSIVE Seqs(_)
Seqs(k) == IF k = 0 THEN {<< >>} ELSE LET s == Seqs(k - 1) IN s \cup { Append(x, t) : x \in { y \in s : Len(y) = k - 1 }, t \in Terms }
Without(p, j) == SubSeq(p, 1, j - 1) \o SubSeq(p, j + 1, Len(p))
Changes(p) == {p, Append(p, Junk), << Junk >> \o p} \cup { Without(p, j) : j \in 1 .. Len(p) } \cup { [p EXCEPT ![j] = Junk] : j \in 1 .. Len(p) }
              \cup { [p EXCEPT ![j] = p[j + 1], ![j + 1] = p[j]] : j \in 1 .. Len(p) - 1 } \cup { Append(p, p[j]) : j \in 1 .. Len(p) }
AnyPath == Seqs(MaxPath)
ForLeaf(h) == IF Pool THEN AnyPath ELSE UNION { { Paths[l][n][i] : i \in 0 .. n - 1 } : l \in Logs, n \in 1 .. N }
                                \cup (IF h.size = 0 THEN {} ELSE UNION { Changes(Paths[h.log][h.size][i]) : i \in 0 .. h.size - 1 })
ForHead(a, b) == IF Pool THEN AnyPath ELSE UNION { { Consist[l][n][m] : m \in 1 .. n } : l \in Logs, n \in 1 .. N }
                                \cup (IF b.log = "none" \/ a.size = 0 \/ a.size > b.size THEN {} ELSE Changes(Consist[b.log][b.size][a.size]))
All == UNION { { Content[l][i] : i \in 1 .. N } : l \in Logs }
\* lists of proofs: good ones, ones of other leaves, and malformed ones
Choice(h, x) == IF h.size = 0 THEN {}
                ELSE { [i |-> i, p |-> Paths[h.log][h.size][i]] : i \in 0 .. h.size - 1 } \cup {[i |-> h.size, p |-> Paths[h.log][h.size][0]], [i |-> 0, p |-> Append(Paths[h.log][h.size][0], Junk)], [i |-> -1, p |-> << >>]}
Verdict(h, x, ps) == LET v == [k \in 1 .. Len(ps) |-> Inclusion(h, x, ps[k].i, ps[k].p)]
                         good == { k \in DOMAIN v : v[k] = "ok" } IN
                     IF good = {} THEN "reject" ELSE IF \A k \in DOMAIN v : v[k] = "malformed" => \E g \in good : g < k THEN "accept" ELSE "free"

Init == trusted \in { h \in Genuine : << h.log, h.size >> \in Heads } /\ act = [op |-> "init"]
Offer(h, p) == LET ok == Extends(trusted, h, p) IN
    /\ trusted' = IF ok /\ h.log # "none" THEN h ELSE trusted
  /\ act' = [op |-> "Root", h |-> h, p |-> p, ok |-> IF ok THEN "accept" ELSE "reject"]
Include(x, ps) == trusted' = trusted /\ act' = [op |-> "Incl", x |-> x, ps |-> ps, ok |-> Verdict(trusted, x, ps)]
Both(x, ps, h, p) == /\ trusted' = trusted
                                          /\ act' = [op |-> "Both", x |-> x, ps |-> ps, h |-> h, p |-> p,
                                ok |-> IF ~Extends(trusted, h, p) THEN "reject" ELSE Verdict(trusted, x, ps)]
Some(h) == { [i |-> i, p |-> Paths[h.log][h.size][i]] : i \in { k \in 0 .. h.size - 1 : k < 2 } }
Next == \/ \E h \in Genuine \cup Altered : \E p \in ForHead(trusted, h) : Offer(h, p)
        \/ \E x \in All, i \in 0 .. N : \E p \in ForLeaf(trusted) : Include(x, << [i |-> i, p |-> p] >>)
        \/ ~Pool /\ \E x \in {Content[l][1] : l \in Logs} \cup {Content[l][N] : l \in Logs} : \/ Include(x, << >>)
                              \/ (\E e, f \in Choice(trusted, x) : Include(x, << e, f >>))
                              \/ (\E e1, e2, e3 \in Some(trusted) \cup { c \in Choice(trusted, x) : c.i = -1 } : Include(x, << e1, e2, e3 >>))
                              \/ \E e4 \in Some(trusted) : \E h \in Genuine : \E p \in {<< >>} \cup (IF trusted.size > 0 /\ h.size >= trusted.size THEN {Consist[h.log][h.size][trusted.size]} ELSE {}) :
                                    Both(x, << e4 >>, h, p)
Spec == Init /\ [][Next]_<< trusted, act >>
View == trusted

\* what is accepted is true
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AppendOnly == [][ act'.op \in {"Root", "Both"} /\ act'.ok # "reject" /\ trusted.size > 0 /\ act'.h.log # "none" => Prefix(Entries(trusted.log, trusted.size), Entries(act'.h.log, act'.h.size)) ]_<< trusted, act >>
Member == [][ act'.op \in {"Incl", "Both"} /\ act'.ok # "reject" =>
               \E k \in 1 .. Len(act'.ps) : LET i == act'.ps[k].i IN i \in 0 .. trusted.size - 1 /\ Entries(trusted.log, trusted.size)[i + 1] = act'.x ]_<< trusted, act >>
\* what is true can be shown
Complete == /\ trusted.log # "none" => \A i \in 0 .. trusted.size - 1 : Inclusion(trusted, Content[trusted.log][i + 1], i, Paths[trusted.log][trusted.size][i]) = "ok"
            /\ trusted.log # "none" /\ trusted.size > 0 =>
                 \A n \in trusted.size .. N : Extends(trusted, [log |-> trusted.log, size |-> n, root |-> Root[trusted.log][n]], Consist[trusted.log][n][trusted.size])
EmitEdge == PrintT("@E " \o ToJson([t |-> trusted, a |-> act']))
=============================================================================
