----------------------------- MODULE Attributes -----------------------------
(* Attributes of a policy for the names below its domain: for each label an entry may allow it, disallow it or exclude it
   from the policy; the entry "*" speaks for the labels without an entry of their own. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Labels,      \* labels that entries may be about, "*" among them
          Dotted,      \* those of Labels that are not single labels
          CAs,
          Domains,     \* domains of policies
          Names,       \* names asked for
          MaxEntries, Weak
VARIABLES allow, deny, excl, cas     \* lists, as written
vars == << allow, deny, excl, cas >>

Has(l, x) == \E k \in 1..Len(l) : l[k] = x
Unique(l) == \A i, j \in 1..Len(l) : l[i] = l[j] => i = j
All == allow \o deny \o excl
WellFormed == Unique(All) /\ Unique(cas) /\ \A k \in 1..Len(All) : All[k] \notin Dotted
Entry(x) == IF Has(allow, x) THEN "allowed" ELSE IF Has(deny, x) THEN "disallowed" ELSE IF Has(excl, x) THEN "excluded" ELSE "none"
EndsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Below(n, d) == Len(n) > Len(d) /\ EndsWith(n, d)
Label(n, d) == IF Weak = "first-label" THEN n[1] ELSE n[Len(n) - Len(d)]    \* the label directly below the policy's domain
Verdict(n, d) ==
  IF ~Below(n, d) THEN "inapplicable"
  ELSE LET own == Entry(Label(n, d))  any == Entry("*") IN
       IF Weak = "wildcard-first" /\ any # "none" THEN any
       ELSE IF own # "none" THEN own ELSE IF any # "none" THEN any ELSE "allowed"

Init == allow = << >> /\ deny = << >> /\ excl = << >> /\ cas = << >>
AddEntry(x) ==
  /\ Len(All) < MaxEntries
  /\ \/ allow' = Append(allow, x) /\ UNCHANGED << deny, excl >>
     \/ deny' = Append(deny, x) /\ UNCHANGED << allow, excl >>
     \/ excl' = Append(excl, x) /\ UNCHANGED << allow, deny >>
  /\ UNCHANGED cas
AddCA(c) == Len(cas) < 2 /\ cas' = Append(cas, c) /\ UNCHANGED << allow, deny, excl >>
Next == (\E x \in Labels : AddEntry(x)) \/ (\E c \in CAs : AddCA(c))
Spec == Init /\ [][Next]_vars

\* consequences
Asked == { << n, d >> \in Names \X Domains : Below(n, d) }
WholeBranch ==         \* a name gets what the name directly below the domain gets
  WellFormed => \A q \in Asked : Verdict(q[1], q[2]) = Verdict(SubSeq(q[1], Len(q[1]) - Len(q[2]), Len(q[1])), q[2])
Outside == \A n \in Names, d \in Domains : (n = d \/ ~EndsWith(n, d)) <=> Verdict(n, d) = "inapplicable"
OwnEntry ==            \* an entry about one label changes nothing for a label with an entry of its own
  [][ \A q \in Asked : WellFormed' /\ Entry(q[1][Len(q[1]) - Len(q[2])]) # "none" => Verdict(q[1], q[2])' = Verdict(q[1], q[2]) ]_vars
Forbidden ==
  WellFormed => \A q \in Asked : Verdict(q[1], q[2]) = "disallowed" =>
     \E k \in 1..Len(deny) : deny[k] \in {"*", q[1][Len(q[1]) - Len(q[2])]}
Grow == [][ ~WellFormed => ~WellFormed' ]_vars
Emit == PrintT("@A " \o ToJson([allow |-> allow', deny |-> deny', excl |-> excl', cas |-> cas', ok |-> WellFormed',
            v |-> IF WellFormed' THEN SetToSeq({ [n |-> n, d |-> d, v |-> Verdict(n, d)'] : n \in Names, d \in Domains }) ELSE << >>]))
=============================================================================
