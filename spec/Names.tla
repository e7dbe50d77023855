------------------------------- MODULE Names -------------------------------
(* Which names are accepted, which domains a name belongs to, and which names a set of names affects.
   A name is the sequence of its labels; suffixes are those of the public suffix list that the labels can form. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Labels,      \* labels by name
          Size,        \* label -> number of characters
          Bad,         \* labels that are not well-formed
          Lower,       \* label -> label in lower case
          Public,      \* rules of the list for publicly maintained suffixes: names; the first label may be "*"
          Private,     \* rules for privately maintained suffixes
          Except,      \* exceptions to rules with "*"
          MaxLabels,
          Pool         \* names of which affected ones are computed, or {}
VARIABLES n, set
vars == << n, set >>

Ends(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE Size[s[k]] + SumTo(s, k - 1)
Chars(s) == SumTo(s, Len(s)) + Len(s) - 1
Low(s) == [k \in 1..Len(s) |-> Lower[s[k]]]

Match(r, s) == Len(r) <= Len(s) /\ \A k \in 1..Len(r) : r[k] = "*" \/ r[k] = s[Len(s) - Len(r) + k]
SuffixLen(s) ==      \* the prevailing rule: an exception, otherwise the longest, otherwise one label
  IF \E r \in Except : Match(r, s) THEN Len(CHOOSE r \in Except : Match(r, s)) - 1
  ELSE LET fit == { Len(r) : r \in { q \in Public \cup Private : Match(q, s) } } IN
       IF fit = {} THEN 1 ELSE CHOOSE m \in fit : \A k \in fit : k <= m
IsPublic(s) ==
  \/ \E r \in Except : Match(r, s)
  \/ \E r \in Public : Match(r, s) /\ Len(r) = SuffixLen(s)
TopLevel(s) == IsPublic(s) /\ SuffixLen(s) = Len(s)

Valid(s) ==
  /\ Chars(s) <= 255
  /\ \A k \in 1..Len(s) : s[k] \notin Bad
  /\ \A k \in 2..Len(s) : s[k] # "*"
  /\ s # << "*" >>
  /\ ~TopLevel(Low(s))
Strip(s) ==      \* the name a wildcard stands under, and the name below www
  LET t == IF Len(s) > 1 /\ s[1] = "*" THEN Tail(s) ELSE s IN
  IF Len(t) > 1 /\ t[1] = "www" /\ Valid(Tail(t)) THEN Tail(t) ELSE t
Registrable(s) == IF IsPublic(s) THEN Ends(s, SuffixLen(s) + 1) ELSE s
\* the registrable domain, and the names between it and the name
Chain(s) == LET b == Strip(Low(s)) IN
            IF ~Valid(s) \/ TopLevel(b) THEN << >>
            ELSE [k \in 1..(Len(b) - Len(Registrable(b)) + 1) |-> Ends(b, Len(Registrable(b)) + k - 1)]

(* Names affected by the names of a certificate: each valid one, unless there are many: then, for each registrable domain,
   the longest name all its names end in. *)
Few == 4
Names(S) == { Strip(s) : s \in { x \in S : Valid(x) } }
RealNames(S) == { s \in Names(S) : ~TopLevel(s) }
Common(G) == LET one == CHOOSE s \in G : TRUE
                 ok == { k \in 1..Len(one) : \A s \in G : Len(s) >= k /\ Ends(s, k) = Ends(one, k) }
             IN Ends(one, CHOOSE k \in ok : \A j \in ok : j <= k)
Affected(S) == LET u == RealNames(S) IN
               IF Cardinality(u) <= Few THEN u
               ELSE { Common({ s \in u : Registrable(s) = r }) : r \in { Registrable(s) : s \in u } }

Init == n = << >> /\ set = {}
Longer == Len(n) < MaxLabels /\ set = {} /\ \E l \in Labels : n' = << l >> \o n /\ UNCHANGED set
More == n = << >> /\ \E s \in Pool \ set : set' = set \cup {s} /\ UNCHANGED n
Next == Longer \/ More
Spec == Init /\ [][Next]_vars

\* what the definitions must give
ChainRight ==
  n # << >> => LET c == Chain(n) IN
    /\ Len(c) > 0 => Valid(n)
    /\ \A k \in 1..Len(c) : Len(c[k]) >= Len(c[1]) /\ c[k] = Ends(Low(n), Len(c[k])) /\ ~TopLevel(c[k])
    /\ Len(c) > 0 => c[Len(c)] = Strip(Low(n))
    /\ (Valid(n) /\ n[1] \notin {"*", "www"}) => Len(c) > 0
EndsIn(s, a) == Len(s) >= Len(a) /\ Ends(s, Len(a)) = a
AffectedRight ==
  /\ \A a \in Affected(set) : \E s \in RealNames(set) : EndsIn(s, a) /\ Len(a) >= Len(Registrable(s))
  /\ \A s \in RealNames(set) : \E a \in Affected(set) : EndsIn(s, a)
  /\ Cardinality(RealNames(set)) > Few => \A s \in { x \in RealNames(set) : IsPublic(x) } : Cardinality({ a \in Affected(set) : EndsIn(a, Registrable(s)) }) = 1
EmitName == n' # << >> => PrintT("@N " \o ToJson([n |-> n', valid |-> Valid(n'), chain |-> Chain(n')]))
EmitSet == set' # {} => PrintT("@S " \o ToJson([set |-> SetToSeq(set'), affected |-> SetToSeq(Affected(set'))]))
Emit == EmitName /\ EmitSet
=============================================================================
