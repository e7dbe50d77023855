------------------------------- MODULE Client -------------------------------
(* A client checks an answer of the map server: honest answers, and answers put together of parts of others.
   Proofs are symbolic: that of the leaf of a name in a tree.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Trees, Names,
          Certs, Pols,    \* tree -> name -> identifiers stored for the name; both empty: nothing is stored
          Sources,        \* how many answers parts may be taken from, besides the first one; 0: any
          Depth,          \* how many parts are replaced at most
          Weak
VARIABLES ans,            \* field -> << tree, name >> of the answer it is taken from, or junk
          base, src, cnt

Fields == {"name", "id", "root", "kind", "leaf", "path", "certs", "pols", "value"}
Origins == Trees \X Names
Junk == << "junk", "junk" >>
JunkFor == Fields \ {"kind"}
Ids(o) == IF o = Junk THEN {"junk"} ELSE Certs[o[1]][o[2]] \cup Pols[o[1]][o[2]]
Stored(t, x) == IF t \in Trees /\ x \in Names THEN Certs[t][x] \cup Pols[t][x] ELSE {}
Kind(o) == IF Ids(o) = {} THEN "absent" ELSE "present"
CertsOf(o) == IF o = Junk THEN << "junk" >> ELSE Certs[o[1]][o[2]]
PolsOf(o) == IF o = Junk THEN << "junk" >> ELSE Pols[o[1]][o[2]]

\* what the answer says
Name == ans["name"][2]
Root == ans["root"][1]
Says == Kind(ans["kind"])
\* identifiers occurring in both lists would count twice
Listed == CASE ans["certs"] = Junk \/ ans["pols"] = Junk -> {"junk"}
            [] Certs[ans["certs"][1]][ans["certs"][2]] \cap Pols[ans["pols"][1]][ans["pols"][2]] # {} -> {"twice"}
            [] OTHER -> Certs[ans["certs"][1]][ans["certs"][2]] \cup Pols[ans["pols"][1]][ans["pols"][2]]
Value == IF ans["value"] = Junk THEN {"junk"} ELSE Ids(ans["value"])     \* the payload hash stands for what it is the hash of
True == IF Root \notin Trees THEN FALSE
        ELSE IF Says = "present" THEN Stored(Root, Name) # {} /\ Listed = Stored(Root, Name) /\ Value = Stored(Root, Name)
        ELSE Stored(Root, Name) = {}
Honest == \E o \in Origins : \A f \in Fields : ans[f] = o
\* what the client checks
Checked ==
  /\ Root \in Trees
  /\ ans["id"][2] = Name \/ Weak = "name-unchecked"
  /\ Says = "present" => /\ (Value = Listed \/ Weak = "lists-unchecked")
                         /\ Kind(ans["leaf"]) = "present" /\ Ids(ans["leaf"]) = Value       \* the value in the proof
  /\ ans["path"][1] = Root /\ ans["path"][2] = ans["id"][2]
  /\ IF Says = "present" THEN Stored(Root, ans["id"][2]) = Value /\ Value # {} ELSE (Stored(Root, ans["id"][2]) = {} \/ Weak = "absence-believed")

Init == /\ base \in Origins /\ src \in (IF Sources = 0 THEN {Junk} ELSE Origins)
        /\ ans = [f \in Fields |-> base] /\ cnt = 0
Next == /\ cnt < Depth /\ cnt' = cnt + 1
        /\ \E f \in Fields : \E o \in (IF Sources = 0 THEN Origins \cup (IF f \in JunkFor THEN {Junk} ELSE {}) ELSE {src}) :
              ans[f] = base /\ o # base /\ ans' = [ans EXCEPT ![f] = o]
        /\ UNCHANGED << base, src >>
Spec == Init /\ [][Next]_<< ans, base, src, cnt >>
Sound == Checked => True
Complete == Honest => Checked
EmitState == PrintT("@S " \o ToJson([a |-> ans, true |-> True, honest |-> Honest, says |-> Says]))
View == << ans, base, src >>
=============================================================================
