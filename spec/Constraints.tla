---------------------------- MODULE Constraints ----------------------------
(* Which certificates an issuer's certificate may issue: validity within the issuer's, domain below the issuer's.
   A chain of certificates grows by one at a time; every decision about a next certificate is a transition. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Domains,     \* domains of certificates: sequences of labels; << >>: not restricted to a domain
          Text,        \* domain -> what look-alike rules see: sequence of characters
          IllFormed,   \* those of Domains that are no names: never a domain of a certificate that is issued, nor of an issuer
          Ticks, MaxChain,
          Rule         \* "labels" is the rule; others are wrong ones
VARIABLES chain,       \* accepted certificates, the issuer of all first
          last         \* the last decision
vars == << chain, last >>

Certs == { c \in [nb: Ticks, na: Ticks, dom: Domains] : c.nb <= c.na }
EndsWith(s, t) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Below(d, e) == IF Rule = "text" THEN EndsWith(Text[d], Text[e])
               ELSE IF Rule = "inverted" THEN e # << >> \/ d = e
               ELSE EndsWith(d, e)
Accept(i, c) ==
  /\ c.dom \notin IllFormed /\ i.dom \notin IllFormed
  /\ IF Rule = "overlap" THEN c.nb <= i.na /\ i.nb <= c.na ELSE i.nb <= c.nb /\ c.na <= i.na
  /\ Below(c.dom, i.dom)

Init == \E c \in Certs : chain = << c >> /\ last = [child |-> c, ok |-> TRUE]
Present(c) ==
  /\ Len(chain) < MaxChain
  /\ last' = [child |-> c, ok |-> Accept(chain[Len(chain)], c)]
  /\ chain' = IF last'.ok THEN Append(chain, c) ELSE chain
Next == \E c \in Certs : Present(c)
Spec == Init /\ [][Next]_vars
View == chain

\* what the constraints are for: nothing along a chain exceeds what any issuer above it has
Nested == \A i, j \in 1..Len(chain) : i < j =>
            /\ chain[i].nb <= chain[j].nb /\ chain[j].na <= chain[i].na
            /\ EndsWith(chain[j].dom, chain[i].dom)
Contained == \A c \in 2..Len(chain) : chain[c].dom \notin IllFormed
\* and not more: an issuer may issue what is like itself
SelfLike == [][ \A i \in {chain[Len(chain)]} : (last'.child = i /\ i.dom \notin IllFormed) => last'.ok ]_vars
Free == [][ (chain[Len(chain)].dom = << >> /\ last'.child.dom \notin IllFormed /\ last'.child.nb >= chain[Len(chain)].nb
             /\ last'.child.na <= chain[Len(chain)].na) => last'.ok ]_vars
Emit == PrintT("@D " \o ToJson([i |-> chain[Len(chain)], c |-> last'.child, ok |-> last'.ok]))
=============================================================================
