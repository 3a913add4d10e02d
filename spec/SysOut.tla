------------------------------- MODULE SysOut -------------------------------
(* What the Systus model files of a deck denote. A file holds the analyses    *)
(* that share their constraint sets: nodes with a mask of blocked components, *)
(* a list of <<load case, vector>> for the forces and one for the imposed     *)
(* displacements; elements as rings of nodes.                                 *)
EXTENDS Deck

(* ------------------------------------------------------------- constraints *)
(* the components the model has: translations only when no element of the deck has rotations *)
ModelDofs(d) == UNION {ElemDofs(e.t) : e \in d.els}
NodeDofs(d, g) == UNION {ElemDofs(e.t) : e \in {x \in d.els : g \in Range(x.n)}}
Blocked(d, i) == {<<s[1], s[2]>> : s \in SpcOf(d, i)}
MustBlock(d, i) == {b \in Blocked(d, i) : b[2] \in ModelDofs(d)}
MayBlock(d, i) == Blocked(d, i)
(* values of the blocked components, in quarters: an SPCD takes the place of the value of the constraint *)
SpcdOn(d, i, b) == {m[2] : m \in {x \in ImpOf(d, i) : x[1] = b}}
SpcVal(d, i, b) == {4 * s[3] : s \in {t \in SpcOf(d, i) : <<t[1], t[2]>> = b /\ t[3] # 0}}
Values(d, i, b) == IF SpcdOn(d, i, b) # {} THEN SpcdOn(d, i, b) \ {0} ELSE SpcVal(d, i, b)

(* ---------------------------------------------------------------- elements *)
(* a Systus element lists its nodes ring by ring, corners and mid side nodes in turn; *)
(* the sequence in the order of the card that it stands for                           *)
Pick2(s, ix) == [i \in 1..Len(ix) |-> s[ix[i]]]
NasOrder(ty, s) ==
  CASE ty = <<"HEXA", 20>> -> Pick2(s, <<1,3,5,7,13,15,17,19, 2,4,6,8, 9,10,11,12, 14,16,18,20>>)
    [] ty = <<"PENTA", 15>> -> Pick2(s, <<1,3,5,10,12,14, 2,4,6, 7,8,9, 11,13,15>>)
    [] ty = <<"TETRA", 10>> -> Pick2(s, <<1,3,5,10, 2,4,6, 7,8,9>>)
    [] ty = <<"PYRA", 5>> -> IF Len(s) = 8 /\ Cardinality({s[i] : i \in 5..Len(s)}) = 1 THEN Pick2(s, <<1,2,3,4,5>>) ELSE s
    [] ty = <<"TRIA", 6>> -> Pick2(s, <<1,3,5, 2,4,6>>)
    [] ty = <<"QUAD", 8>> -> Pick2(s, <<1,3,5,7, 2,4,6,8>>)
    [] OTHER -> s
(* family of the element type code: dimension, kind, number of nodes *)
Family(ty) == CASE ty[1] = "SEG" -> 10 [] ty[1] \in {"TRIA", "QUAD"} -> 24 [] OTHER -> 30
NNodes(ty) == ty[2]
=============================================================================
