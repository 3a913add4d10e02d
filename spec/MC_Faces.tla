------------------------------ MODULE MC_Faces ------------------------------
(* Builds solid elements one corner at a time from a few identifiers, turns  *)
(* the card into the order of a MED file and asks for faces.                 *)
EXTENDS Faces
CONSTANT Variant, Ids, Free
VARIABLES s, n, med, ask
vars == <<s, n, med, ask>>
Init == s \in Shapes /\ n = <<>> /\ med = <<>> /\ ask = <<>>
Used == {n[i] : i \in 1..Len(n)}
(* corners take the identifiers in an arbitrary order near the start, then the rest in sequence *)
Add == /\ Len(n) < NCorner(s) + NSide(s) /\ med = <<>>
       /\ \E x \in Ids \ Used : /\ (Len(n) >= Free => \A y \in Ids \ Used : x <= y)
                                /\ n' = Append(n, x)
       /\ UNCHANGED <<s, med, ask>>
Wrong(x) == CASE Variant = "mid" -> [x EXCEPT ![NCorner(s) + 1] = x[NCorner(s) + 2], ![NCorner(s) + 2] = x[NCorner(s) + 1]]
              [] Variant = "order" -> [k \in 1..Len(x) |-> n[k]]
              [] OTHER -> x
Convert == /\ med = <<>> /\ Len(n) = NCorner(s) + NSide(s)
           /\ \E q \in {TRUE, FALSE} : LET m == IF q THEN n ELSE SubSeq(n, 1, NCorner(s)) IN
                med' = IF q THEN Wrong(ToMed(s, m)) ELSE (IF Variant = "order" THEN m ELSE ToMed(s, m))
           /\ UNCHANGED <<s, n, ask>>
Ask == /\ med # <<>> /\ ask = <<>>
       /\ \E a \in 1..NCorner(s), b \in 0..NCorner(s) : a # b /\ ask' = <<a, b>>
       /\ UNCHANGED <<s, n, med>>
Next == Add \/ Convert \/ Ask
Spec == Init /\ [][Next]_vars
SameShape == med # <<>> => MedDen(s, med) = NasDen(s, SubSeq(n, 1, Len(med)))
Surface == Closed(Cycles(s)) /\ Sphere(s, Cycles(s)) /\ Closed(MedCycles(s))
FacesWhole == med # <<>> => /\ Cardinality(MedFaces(s, med)) = Cardinality(Cycles(s))
                            /\ \A f \in MedFaces(s, med) : Len(f) \in (IF Len(med) > NCorner(s) THEN {6, 8} ELSE {3, 4})
(* opposite corners of a quadrangle designate one face; the corner opposite to a face of a tetrahedron too *)
Unique == ask # <<>> =>
   LET F == Designated(s, ask[1], ask[2]) IN
   /\ s = "TETRA" /\ ask[2] # 0 => Cardinality(F) = 1
   /\ s # "TETRA" /\ ask[2] # 0 /\ (\E c \in MedCycles(s) : Len(c) = 4 /\ On(c, ask[1]) /\ On(c, ask[2]) /\ ~Adjacent(c, ask[1], ask[2])) => Cardinality(F) = 1
   /\ s = "PENTA" /\ ask[2] = 0 => Cardinality(F) = 1
=============================================================================
