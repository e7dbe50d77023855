-------------------------------- MODULE Codec --------------------------------
(* Policy objects and their serialised form. An object is of a kind and has fields; it is serialised as a pair of tag and payload.
   Objects may stand behind a pointer and in lists of mixed kinds, and lists in lists. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Kinds,
          Fields,      \* kind -> fields, as the code has them
          Keeps,       \* kinds whose objects keep the text they were read from
          MaxDepth, MaxLen, MaxSize,
          Weak
VARIABLES v,           \* an object under construction
          skip         \* whether it is read without keeping the text
vars == << v, skip >>

(* ---- objects: all fields have the value `base`, except perhaps one; value 0 is the absence of the field ---- *)
NoDev == << "", 0 >>
Leaf(k, b, d) == [w |-> "leaf", kind |-> k, base |-> b, dev |-> d, of |-> << >>, raw |-> << >>]
Leaves(k) == { Leaf(k, b, NoDev) : b \in {0, 1} } \cup { Leaf(k, b, << f, x >>) : b \in {0, 1}, f \in Fields[k], x \in {0, 1, 2} }
Proper(l) == l.dev # NoDev => /\ l.dev[2] # l.base                                  \* no two that are the same
                              /\ Cardinality(Fields[l.kind]) = 1 => l.dev[2] = 2 /\ l.base = 0
                              /\ Cardinality(Fields[l.kind]) = 2 => l.dev[2] = 2 \/ l.base = 0
Value(l) == [f \in Fields[l.kind] |-> IF l.dev # NoDev /\ l.dev[1] = f THEN l.dev[2] ELSE l.base]
Ptr(x) == [w |-> "ptr", kind |-> "", base |-> 0, dev |-> NoDev, of |-> << x >>, raw |-> << >>]
List(s) == [w |-> "list", kind |-> "", base |-> 0, dev |-> NoDev, of |-> s, raw |-> << >>]
Equal(a, b) == a.kind = b.kind /\ Value(a) = Value(b)

(* ---- text ---- *)
Text(t, f, s) == [tag |-> t, fields |-> f, items |-> s]
RECURSIVE Ser(_)
Ser(x) == IF x.w = "leaf" THEN Text(<< x.kind >>, << x.base, x.dev >>, << >>)
          ELSE IF x.w = "ptr" THEN LET t == Ser(x.of[1]) IN Text(<< "*" >> \o t.tag, t.fields, t.items)
          ELSE Text(<< "list" >>, << >>, [k \in 1..Len(x.of) |-> Ser(x.of[k])])
Failed == [w |-> "error", kind |-> "", base |-> 0, dev |-> NoDev, of |-> << >>, raw |-> << >>]
RECURSIVE Des(_, _)
Des(t, keep) ==
  IF Len(t.tag) = 2 /\ t.tag[1] = "*" THEN
     LET x == Des(Text(Tail(t.tag), t.fields, t.items), keep) IN
     IF x = Failed \/ x.w = "ptr" THEN Failed
     ELSE IF x.w = "leaf" /\ keep /\ x.kind \in Keeps THEN Ptr([x EXCEPT !.raw = << t >>]) ELSE Ptr(x)
  ELSE IF Len(t.tag) # 1 THEN Failed
  ELSE IF t.tag[1] = "list" THEN
     LET s == [k \in 1..Len(t.items) |-> Des(t.items[k], keep)] IN
     IF Weak # "drops-bad-items" /\ (\E k \in 1..Len(s) : s[k] = Failed) THEN Failed ELSE List(SelectSeq(s, LAMBDA x : x # Failed))
  ELSE IF t.tag[1] \notin Kinds \/ Len(t.fields) # 2 THEN Failed
  ELSE LET x == Leaf(t.tag[1], t.fields[1], t.fields[2]) IN
       IF keep /\ t.tag[1] \in Keeps THEN [x EXCEPT !.raw = IF Weak = "no-raw" THEN << >> ELSE << t >>] ELSE x
RECURSIVE Bare(_)
Bare(x) == [x EXCEPT !.raw = << >>, !.of = [k \in 1..Len(x.of) |-> Bare(x.of[k])]]

\* ways to spoil a text, at any of its parts
RECURSIVE Spoil(_)
Spoil(t) ==
  { [t EXCEPT !.tag = << "unknown" >>], [t EXCEPT !.tag = << >>], [t EXCEPT !.tag = << "*", "*" >> \o @] }
  \cup (IF t.tag[Len(t.tag)] = "list" THEN {} ELSE { [t EXCEPT !.fields = << >>] })
  \cup UNION { { [t EXCEPT !.items[k] = u] : u \in Spoil(t.items[k]) } : k \in 1..Len(t.items) }

(* ---- construction ---- *)
Objects == { Leaf(k, b, NoDev) : k \in Kinds, b \in {0, 1} }
RECURSIVE Depth(_)
Depth(x) == IF x.of = << >> THEN 0 ELSE 1 + (LET d == { Depth(x.of[k]) : k \in 1..Len(x.of) } IN CHOOSE m \in d : \A y \in d : y <= m)
RECURSIVE Size(_)
Size(x) == 1 + (IF x.of = << >> THEN 0 ELSE LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE Size(x.of[k]) + S(k - 1) IN S(Len(x.of)))
Init == v \in (UNION { { l \in Leaves(k) : Proper(l) } : k \in Kinds } \cup { List(<< >>) }) /\ skip \in BOOLEAN
Plain == v.w # "leaf" \/ v.dev = NoDev
Behind == v.w # "ptr" /\ v' = Ptr(v)
Within == Plain /\ v' = List(<< v >>)
Add == v.w = "list" /\ Len(v.of) < MaxLen /\ \E x \in Objects : \E y \in {x, Ptr(x)} : v' = [v EXCEPT !.of = Append(@, y)]
AddSelf == v.w = "list" /\ Len(v.of) < MaxLen /\ v' = [v EXCEPT !.of = << v >> \o @]
Next == (Behind \/ Within \/ Add \/ AddSelf) /\ UNCHANGED skip
Bound == Depth(v) <= MaxDepth /\ Size(v) <= MaxSize
Spec == Init /\ [][Next]_vars

RoundTrip == Bare(Des(Ser(v), ~skip)) = v
RECURSIVE RawRight(_)
RawRight(x) ==
  IF x.w = "leaf" THEN (x.kind \in Keeps /\ ~skip) <=> x.raw # << >>
  ELSE IF x.w = "ptr" /\ x.of[1].raw # << >> THEN x.of[1].raw[1] = Ser(Bare(x))
  ELSE \A k \in 1..Len(x.of) : RawRight(x.of[k])
KeepsText == RawRight(Des(Ser(v), ~skip))
Rejects == \A t \in Spoil(Ser(v)) : Des(t, ~skip) = Failed
Distinct == v.w = "leaf" => \A l \in { x \in Leaves(v.kind) : Proper(x) } : Equal(v, l) <=> Ser(v) = Ser(l)
Emitting == Bound => PrintT("@V " \o ToJson([v |-> v, skip |-> skip]))
=============================================================================
