------------------------------- MODULE MeshIO -------------------------------
(* The mesh that a deck denotes: grid points at their place in the global    *)
(* frame and elements as shapes over grid identifiers, with the group of     *)
(* their property. D is the list of the bulk cards, in any order.            *)
EXTENDS Frames
Fc == INSTANCE Faces
RangeOf(q) == {q[i] : i \in DOMAIN q}
CardsK(D, k) == {e \in RangeOf(D) : e.k = k}
GridOf(D, g) == CHOOSE e \in CardsK(D, "GRID") : e.id = g
DefCp(D) == IF CardsK(D, "GRDSET") = {} THEN 0 ELSE (CHOOSE e \in CardsK(D, "GRDSET") : TRUE).cp
DefCd(D) == IF CardsK(D, "GRDSET") = {} THEN 0 ELSE (CHOOSE e \in CardsK(D, "GRDSET") : TRUE).cd
RECURSIVE FrameIn(_, _)
RECURSIVE PosIn(_, _)
(* the frame of coordinate system c; 0 is the global one *)
FrameIn(D, c) ==
  IF c = 0 THEN GlobalFrame
  ELSE LET e == CHOOSE e \in CardsK(D, "CS") \cup CardsK(D, "CS1") : e.id = c IN
       IF e.k = "CS" THEN FrameOn(e.t, FrameIn(D, e.rid), e.a, e.b, e.c)
       ELSE LET p == [i \in 1..3 |-> PosIn(D, e.g[i])]
                d == Max2(p[1].d, Max2(p[2].d, p[3].d))   \* powers of five
            IN FrameAt("R", d, VMul(d \div p[1].d, p[1].v), VMul(d \div p[2].d, p[2].v), VMul(d \div p[3].d, p[3].v))
PosIn(D, g) == LET e == GridOf(D, g) cp == IF e.cp = -1 THEN DefCp(D) ELSE e.cp
                   f == FrameIn(D, cp) IN [v |-> PointG(f, e.x), d |-> f.d]
PlaceOf(D, g) == LET p == PosIn(D, g) IN Scaled(p.v, p.d)
GridIds(D) == {e.id : e \in CardsK(D, "GRID")}

(* --------------------------------------------------------------- elements *)
Solid == [CTETRA |-> "TETRA", CPYRAM |-> "PYRA", CPENTA |-> "PENTA", CHEXA |-> "HEXA"]
IsSolid(t) == t \in DOMAIN Solid
Pid(e) == IF e.pid = 0 THEN e.id ELSE e.pid
MedType(e) == CASE IsSolid(e.t) -> <<Solid[e.t], Len(e.n)>>
                [] e.t \in {"CTRIA3", "CTRIAR", "CTRIA6"} -> <<"TRIA", Len(e.n)>>
                [] e.t \in {"CQUAD4", "CQUADR", "CQUAD8", "CQUAD"} -> <<"QUAD", Len(e.n)>>
                [] OTHER -> <<"SEG", Len(e.n)>>
GroupOf(e) == IF e.t = "CONROD" THEN "CONROD_" \o ToString(e.id) ELSE "PROP_" \o ToString(Pid(e))
(* what an element denotes: solids as surfaces, the others as node sequences *)
DenEl(e) == [ty |-> MedType(e), shape |-> IF IsSolid(e.t) THEN Fc!NasDen(Solid[e.t], e.n) ELSE [faces |-> {e.n}, mids |-> {}], grp |-> {GroupOf(e)}]
DenCell(c, N(_)) == LET ids == [i \in 1..Len(c.n) |-> N(c.n[i])] IN
   [ty |-> <<c.t, Len(c.n)>>, shape |-> IF c.t \in {"TETRA", "PYRA", "PENTA", "HEXA"} /\ Len(c.n) \in {Fc!NCorner(c.t), Fc!NCorner(c.t) + Fc!NSide(c.t)} THEN Fc!MedDen(c.t, ids) ELSE [faces |-> {ids}, mids |-> {}],
    grp |-> RangeOf(c.grp)]
Count(S, x, F(_)) == Cardinality({i \in DOMAIN S : F(S[i]) = x})
(* the two lists hold the same things equally often *)
SameBag(A, F(_), B, G(_)) == LET fa == [i \in DOMAIN A |-> F(A[i])] gb == [i \in DOMAIN B |-> G(B[i])] IN
  /\ Len(A) = Len(B)
  /\ \A x \in RangeOf(fa) : Cardinality({i \in DOMAIN A : fa[i] = x}) = Cardinality({i \in DOMAIN B : gb[i] = x})
=============================================================================
