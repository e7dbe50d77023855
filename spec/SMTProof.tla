------------------------------ MODULE SMTProof ------------------------------
(* What an adversary who supplies arbitrary bytes as a proof can make a verifier accept.

   Every hash of the tree is the hash of a byte string (its preimage) without any separation of domains:
      leaf      key || value || height          65 bytes
      interior  left || right                   64 bytes, or 33 with one default half (a single 0 byte)
   The verifier hashes path elements, key, value and the default leaf in the same way.  As SHA-256 is
   collision-free, a claim is accepted only if at each level the bytes the verifier hashes are, as a string,
   the preimage of a hash of the tree.  The adversary is free in how it cuts these strings.  This module
   enumerates all ways to do so: byte strings are sequences of atoms, the first byte, the 30 middle bytes and
   the last byte of a 32 byte string, or a literal byte.  A fact says that a certain byte of a certain hash
   has a certain value, which an adversary obtains by trying out about 256 values.                       *)
EXTENDS SMTree, Integers

CONSTANT MaxDepth,   \* how far the adversary descends
         FactBytes   \* the byte values that facts may mention

VARIABLES m,      \* contents of the tree
          fact,   \* {} or one fact << term, position, byte >>
          rest,   \* preimage of the hash that the remaining part of the proof must hash to
          bits,   \* direction taken at each level
          path,   \* path elements supplied, from the root downwards
          claim   \* the claim made in the end

pvars == << m, fact, rest, bits, path, claim >>

None == [kind |-> "none"]

Lit(n)  == [x |-> [t |-> "lit"], p |-> n]
Norm(a) == IF \E f \in fact : f[1] = a.x /\ f[2] = a.p
           THEN Lit((CHOOSE f \in fact : f[1] = a.x /\ f[2] = a.p)[3]) ELSE a
Str(x)  == << Norm([x |-> x, p |-> 0]), [x |-> x, p |-> 1], Norm([x |-> x, p |-> 2]) >>
KeyStr(k) == Str([t |-> "K", k |-> k])
ValStr(v) == Str([t |-> "V", v |-> v])
HashStr(x) == IF x = Default THEN << Lit(0) >> ELSE Str(x)

Size(s) == LET RECURSIVE sz(_)
               sz(q) == IF q = << >> THEN 0
                        ELSE (IF Head(q).x.t # "lit" /\ Head(q).p = 1 THEN 30 ELSE 1) + sz(Tail(q))
           IN sz(s)

Pre(x) == IF x.t = "L" THEN KeyStr(x.k) \o ValStr(x.v) \o << Lit(x.h % 256) >>
          ELSE HashStr(x.l) \o HashStr(x.r)

RECURSIVE SubTerms(_)
SubTerms(x) == IF x.t = "N" THEN {x} \cup SubTerms(x.l) \cup SubTerms(x.r)
               ELSE IF x.t = "L" THEN {x} ELSE {}

FactSets(c) == { {} } \cup { { << x, p, n >> } : x \in SubTerms(Root(c)) \ {Root(c)}, p \in {0, 2}, n \in FactBytes }

PInit ==
  /\ m \in {c \in Contents : Present(c) # {}}
  /\ fact \in FactSets(m)
  /\ rest = Pre(Root(m))
  /\ bits = << >> /\ path = << >> /\ claim = None

Front(s, n) == SubSeq(s, 1, n)
Back(s, n)  == SubSeq(s, n + 1, Len(s))

(* The rest of the proof hashes to the hash of the subterm x, which stands at the end or the front. *)
Descend(b, x) ==
  /\ claim = None /\ Len(bits) < MaxDepth
  /\ Len(rest) > 3
  /\ IF b = 1 THEN Back(rest, Len(rest) - 3) = Str(x) ELSE Front(rest, 3) = Str(x)
  /\ rest' = Pre(x)
  /\ path' = Append(path, IF b = 1 THEN Front(rest, Len(rest) - 3) ELSE Back(rest, 3))
  /\ bits' = Append(bits, b)
  /\ UNCHANGED << m, fact, claim >>

(* A leaf whose key is the first i atoms of the string; the last byte has to be the height. *)
LeafAt(i) ==
  /\ claim = None
  /\ rest[Len(rest)] = Lit((Height - Len(path)) % 256)
  /\ i \in 0 .. Len(rest) - 1

LeafKey(i)   == Front(rest, i)
LeafValue(i) == SubSeq(rest, i + 1, Len(rest) - 1)

ClaimIn(i) ==
  /\ LeafAt(i)
  /\ claim' = [kind |-> "in", key |-> LeafKey(i), val |-> LeafValue(i)]
  /\ UNCHANGED << m, fact, rest, bits, path >>

OnPath(k) == \A i \in 1 .. Len(bits) : Bits[k][i] = bits[i]

(* k is claimed to be absent, because another leaf stands on its path. *)
ClaimNotInLeaf(i, k) ==
  /\ LeafAt(i) /\ OnPath(k) /\ i > 0
  /\ claim' = [kind |-> "notin", k |-> k, key |-> LeafKey(i), val |-> LeafValue(i)]
  /\ UNCHANGED << m, fact, rest, bits, path >>

(* k is claimed to be absent, because a default node stands on its path. *)
ClaimNotInDefault(b, k) ==
  /\ claim = None /\ Len(bits) < MaxDepth
  /\ IF b = 1 THEN rest[Len(rest)] = Lit(0) ELSE rest[1] = Lit(0)
  /\ \A i \in 1 .. Len(bits) : Bits[k][i] = bits[i]
  /\ Bits[k][Len(bits) + 1] = b
  /\ path' = Append(path, IF b = 1 THEN Front(rest, Len(rest) - 1) ELSE Back(rest, 1))
  /\ bits' = Append(bits, b)
  /\ claim' = [kind |-> "notin", k |-> k, key |-> << >>, val |-> << >>]
  /\ UNCHANGED << m, fact, rest >>

PNext == \/ \E b \in {0, 1} : \E x \in SubTerms(Root(m)) : Descend(b, x)
         \/ \E i \in 0 .. 6 : ClaimIn(i) \/ \E k \in All : ClaimNotInLeaf(i, k)
         \/ \E b \in {0, 1}, k \in All : ClaimNotInDefault(b, k)

PSpec == PInit /\ [][PNext]_pvars

(* ---------------------------------------- verdicts ----------------------------------------------- *)
True == IF claim.kind = "in"
        THEN \E k \in Present(m) : claim.key = KeyStr(k) /\ claim.val = ValStr(m[k])
        ELSE claim.k \notin Present(m)

(* The lengths a verifier must insist on, and that the leaf shown is not the key's own. *)
WellFormed == /\ \A i \in 1 .. Len(path) : Size(path[i]) = 32 \/ path[i] = << Lit(0) >>
              /\ claim.kind = "in" \/ claim.key # << >> => Size(claim.key) = 32 /\ Size(claim.val) = 32
              /\ claim.kind = "notin" => claim.key # KeyStr(claim.k)

(* The one forgery that lengths do not exclude: 0||r with r = x||0 is also (0||x)||0, so that a node whose
   left half is empty can be shown as one whose right half is empty, and vice versa.                     *)
DefaultShift == /\ claim.kind = "notin" /\ claim.key = << >>
                /\ fact # {}
                /\ Size(rest) = 33 /\ Size(path[Len(path)]) = 32

Sound == claim # None /\ WellFormed /\ ~DefaultShift => True

(* The weaknesses are real in the model: without the length checks, or without excluding the shift, false
   claims are accepted.  These are checked to be violated (see the check of T03).                       *)
SoundWithoutLengths == claim # None => True
SoundWithShift      == claim # None /\ WellFormed => True

Complete ==  \* the honest proof of every key is among the claims and is well-formed (checked at the claims)
  claim # None /\ claim.kind = "in" /\ True => \E k \in Present(m) : Len(path) = Len(Proof(m, k).path)

EmitClaim == claim' # None =>
  PrintT("@C " \o ToJson([m |-> m, fact |-> fact, path |-> path', bits |-> bits', claim |-> claim', root |-> Root(m),
                          truth |-> True', wf |-> WellFormed', shift |-> DefaultShift']))
=============================================================================
