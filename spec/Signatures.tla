----------------------------- MODULE Signatures -----------------------------
(* Owner and issuer signatures of policy certificates. A signer is identified by its certificate without what may be added to it
   later (log timestamps, its own issuer's signature). A signature is what it was made with and over.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Signers,     \* certificates of signers
          Key,         \* signer -> its key; several may have the same
          CanOwn,      \* signers that may sign as owner
          Garbled,     \* signers whose certificate has no readable key
          Contents,    \* contents of the object to be signed
          Unwritable,  \* contents that cannot be serialised
          Depth,
          Weak
VARIABLES obj,         \* form "req" or "cert"; content; owner hash and signature; issuer hash and signature; timestamps
          grown,       \* signers to whose certificates something was added
          made,        \* ghost: signatures made: << role, signer, what it is about >>
          n, act
vars == << obj, grown, made, n, act >>

None == "none"
NoSig == << >>
Junk == << "junk" >>
Base == [form |-> "req", content |-> CHOOSE c \in Contents : c \notin Unwritable, oh |-> None, os |-> NoSig, ih |-> None, is |-> NoSig, ts |-> 0]
OverOwner(o, h) == IF Weak = "owner-hash-uncovered" THEN << o.content >> ELSE << o.content, h >>
OverIssuer(o, h) == IF Weak = "timestamps-uncovered" THEN << o.content, o.oh, o.os, h >> ELSE << o.content, o.oh, o.os, h, o.ts >>
Writable(o) == o.content \notin Unwritable
VerOwner(o, s) == s \notin Garbled /\ Writable(o) /\ (o.oh = s \/ Weak = "hash-unchecked") /\ o.os = << Key[s], OverOwner(o, o.oh) >>
VerIssuer(o, s) == s \notin Garbled /\ Writable(o) /\ o.ih = s /\ o.is = << Key[s], OverIssuer(o, o.ih) >>
CanSignOwner(o, s) == o.oh = None /\ o.os = NoSig /\ s \in CanOwn /\ Writable(o)
CanSignIssuer(o) == o.ih = None /\ o.is = NoSig /\ Writable(o)

Act(op, s, k, ok) == /\ act' = [op |-> op, s |-> s, k |-> k, ok |-> ok, vo |-> { x \in Signers : VerOwner(obj', x) }, vi |-> { x \in Signers : VerIssuer(obj', x) }]
                     /\ n < Depth /\ n' = n + 1
Init == obj = Base /\ grown = {} /\ made = {} /\ n = 0 /\ act = [op |-> "init"]
Keys == { Key[s] : s \in Signers }
SignOwner(s, k) ==
  /\ obj.form = "req"
  /\ LET ok == CanSignOwner(obj, s) IN
     /\ obj' = IF ok THEN [obj EXCEPT !.oh = s, !.os = << k, OverOwner(obj, s) >>] ELSE obj
     /\ made' = IF ok THEN made \cup {<< "owner", s, obj.content >>} ELSE made
     /\ Act("SignOwner", s, k, ok)
  /\ UNCHANGED grown
Issue(s, k) ==          \* makes a certificate of a request
  /\ obj.form = "req"
  /\ LET ok == Writable(obj)  o == [obj EXCEPT !.form = "cert", !.ts = 0] IN
     /\ obj' = IF ok THEN [o EXCEPT !.ih = s, !.is = << k, OverIssuer(o, s) >>] ELSE obj
     /\ made' = IF ok THEN made \cup {<< "issuer", s, obj.content, obj.oh, obj.os, 0 >>} ELSE made
     /\ Act("Issue", s, k, ok)
  /\ UNCHANGED grown
SignIssuer(s, k) ==
  /\ obj.form = "cert"
  /\ LET ok == CanSignIssuer(obj) IN
     /\ obj' = IF ok THEN [obj EXCEPT !.ih = s, !.is = << k, OverIssuer(obj, s) >>] ELSE obj
     /\ made' = IF ok THEN made \cup {<< "issuer", s, obj.content, obj.oh, obj.os, obj.ts >>} ELSE made
     /\ Act("SignIssuer", s, k, ok)
  /\ UNCHANGED grown
Set(op, o) == obj' = o /\ o # obj /\ Act(op, None, None, TRUE) /\ UNCHANGED << made, grown >>
Change(c) == Set("Content-" \o c, [obj EXCEPT !.content = c])
ClearOwner == Set("ClearOwner", [obj EXCEPT !.oh = None, !.os = NoSig])
DropOwnerSig == obj.oh # None /\ Set("DropOwnerSig", [obj EXCEPT !.os = NoSig])
ClearIssuer == obj.form = "cert" /\ Set("ClearIssuer", [obj EXCEPT !.ih = None, !.is = NoSig])
DropIssuerSig == obj.form = "cert" /\ obj.ih # None /\ Set("DropIssuerSig", [obj EXCEPT !.is = NoSig])
AddTS == obj.form = "cert" /\ obj.ts < 2 /\ Set("AddTS", [obj EXCEPT !.ts = @ + 1])
AlterTS == obj.form = "cert" /\ obj.ts \in {1, 2} /\ Set("AlterTS", [obj EXCEPT !.ts = 10 + @])
OwnerHash(s) == obj.oh # None /\ Set("OwnerHash-" \o s, [obj EXCEPT !.oh = s])
IssuerHash(s) == obj.ih # None /\ Set("IssuerHash-" \o s, [obj EXCEPT !.ih = s])
JunkOwner == obj.os # NoSig /\ Set("JunkOwner", [obj EXCEPT !.os = Junk])
JunkIssuer == obj.is # NoSig /\ Set("JunkIssuer", [obj EXCEPT !.is = Junk])
\* the holder of a key can sign whatever it likes, under no name or another's
First == CHOOSE x \in CanOwn : TRUE
Hand(op, o) == Writable(obj) /\ obj' = o /\ o # obj /\ Act(op, First, Key[First], TRUE) /\ UNCHANGED << made, grown >>
HandOwner(h) == Hand("HandOwner-" \o h, [obj EXCEPT !.oh = h, !.os = << Key[First], OverOwner(obj, h) >>])
HandIssuer(h) == obj.form = "cert" /\ Hand("HandIssuer-" \o h, [obj EXCEPT !.ih = h, !.is = << Key[First], OverIssuer(obj, h) >>])
Names == {None} \cup { s \in Signers : Key[s] # Key[First] }
Grow(s) == s \notin grown /\ grown' = grown \cup {s} /\ obj' = obj /\ Act("Grow", s, None, TRUE) /\ UNCHANGED made
Next == \/ \E s \in Signers, k \in Keys : (k = Key[s] \/ s = First) /\ (SignOwner(s, k) \/ Issue(s, k) \/ SignIssuer(s, k))
        \/ \E c \in Contents : Change(c)
        \/ \E s \in Signers : OwnerHash(s) \/ IssuerHash(s) \/ Grow(s)
        \/ \E h \in Names : HandOwner(h) \/ HandIssuer(h)
        \/ ClearOwner \/ DropOwnerSig \/ ClearIssuer \/ DropIssuerSig \/ AddTS \/ AlterTS \/ JunkOwner \/ JunkIssuer
Spec == Init /\ [][Next]_vars
View == << obj, grown >>
ViewDeep == << obj, grown, made >>

\* a signature that verifies was made for this certificate by its signer, over all that it must cover
Genuine == \A s \in Signers :
  /\ VerOwner(obj, s) => << "owner", s, obj.content >> \in made
  /\ VerIssuer(obj, s) => << "issuer", s, obj.content, obj.oh, obj.os, obj.ts >> \in made
One == Cardinality({ s \in Signers : VerOwner(obj, s) }) <= 1 /\ Cardinality({ s \in Signers : VerIssuer(obj, s) }) <= 1
\* a signature made verifies at once, and the owner's whatever is added
Verifies == [][ /\ (act'.op = "SignOwner" /\ act'.ok /\ act'.k = Key[act'.s] /\ act'.s \notin Garbled) => VerOwner(obj', act'.s)
                /\ (act'.op \in {"SignIssuer", "Issue"} /\ act'.ok /\ act'.k = Key[act'.s] /\ act'.s \notin Garbled) => VerIssuer(obj', act'.s)
                /\ act'.op \in {"Issue", "SignIssuer", "ClearIssuer", "DropIssuerSig", "AddTS", "AlterTS", "JunkIssuer", "Grow"} =>
                      \A s \in Signers : VerOwner(obj', s) <=> VerOwner(obj, s) ]_vars
EmitEdge == PrintT("@E " \o ToJson([f |-> View, a |-> act', t |-> << obj', grown' >>]))
=============================================================================
