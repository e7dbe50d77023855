------------------------------- MODULE SMTree -------------------------------
(* The tree as a function of its contents, its proofs, and their verification. Hashes are symbolic terms.

   The tree definition (from pkg/mapserver/trie): a subtree without keys is the default node; a subtree
   with one key is that key's leaf, hashed together with the height at which it stands; any other
   subtree is the hash of its two halves, split at the key's next bit.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys,       \* keys that may be written
          Absent,     \* further keys, only ever queried
          Vals,       \* values
          Bits,       \* [Keys \cup Absent -> sequence of bits], distinct
          Height      \* height of the root (256)

Nil == "nil"
Del == "del"
All == Keys \cup Absent

(* ------------------------------------ contents and their root ------------------------------------ *)
Contents == [Keys -> Vals \cup {Nil}]
Present(m) == {k \in Keys : m[k] # Nil}

Default       == [t |-> "E"]
Leaf(k, v, h) == [t |-> "L", k |-> k, v |-> v, h |-> h]
Node(l, r)    == [t |-> "N", l |-> l, r |-> r]

Half(ks, d, b) == {k \in ks : Bits[k][d + 1] = b}

RECURSIVE Sub(_, _, _)
Sub(m, ks, d) ==
  CASE ks = {}              -> Default
    [] Cardinality(ks) = 1  -> LET k == CHOOSE k \in ks : TRUE IN Leaf(k, m[k], Height - d)
    [] OTHER                -> Node(Sub(m, Half(ks, d, 0), d + 1), Sub(m, Half(ks, d, 1), d + 1))

Root(m) == Sub(m, Present(m), 0)

(* ------------------------------------------ proofs ----------------------------------------------- *)
(* The audit path of a key: siblings from the root downwards, until the subtree has at most one key. *)
RECURSIVE Path(_, _, _, _)
Path(m, ks, k, d) ==
  IF Cardinality(ks) <= 1 THEN << >>
  ELSE LET b == Bits[k][d + 1] IN
       << Sub(m, Half(ks, d, 1 - b), d + 1) >> \o Path(m, Half(ks, d, b), k, d + 1)

RECURSIVE Bottom(_, _, _, _)
Bottom(m, ks, k, d) ==                    \* the keys of the subtree in which the path ends
  IF Cardinality(ks) <= 1 THEN ks ELSE Bottom(m, Half(ks, d, Bits[k][d + 1]), k, d + 1)

Proof(m, k) ==
  LET bottom == Bottom(m, Present(m), k, 0)
      path   == Path(m, Present(m), k, 0)
  IN [inc  |-> bottom = {k},
      leaf |-> IF bottom = {} THEN Nil ELSE CHOOSE x \in bottom : TRUE,
      path |-> path]

(* Recomputing the root from a path, along the bits of key k. *)
RECURSIVE Fold(_, _, _, _)
Fold(bottom, path, k, d) ==
  IF path = << >> THEN bottom
  ELSE LET rest == Fold(bottom, Tail(path), k, d + 1)
       IN IF Bits[k][d + 1] = 1 THEN Node(Head(path), rest) ELSE Node(rest, Head(path))

SamePrefix(a, b, n) == \A i \in 1..n : Bits[a][i] = Bits[b][i]

VerifyIn(root, path, k, v) == root = Fold(Leaf(k, v, Height - Len(path)), path, k, 0)
VerifyNotIn(root, path, k, leaf, v) ==
  IF leaf = Nil THEN root = Fold(Default, path, k, 0)
  ELSE /\ leaf # k
       /\ VerifyIn(root, path, leaf, v)
       /\ SamePrefix(k, leaf, Len(path))

(* Completeness of proofs, and that the root determines the contents. *)
ProofsComplete(m) ==
  \A k \in All :
     LET p == Proof(m, k) IN
     /\ p.inc <=> (k \in Keys /\ m[k] # Nil)
     /\ IF p.inc THEN VerifyIn(Root(m), p.path, k, m[k])
        ELSE VerifyNotIn(Root(m), p.path, k, p.leaf, IF p.leaf = Nil THEN Nil ELSE m[p.leaf])

ASSUME ProofsAlwaysComplete == \A m \in Contents : ProofsComplete(m)

RootOf == [m \in Contents |-> Root(m)]
ASSUME Canonical == Cardinality({RootOf[m] : m \in Contents}) = Cardinality(Contents)

=============================================================================
