------------------------------- MODULE Faces -------------------------------
(* Solid elements as oriented surfaces. Corners are numbered as on the card  *)
(* (Nastran) or as in a MED file; the two numberings mirror each other. A    *)
(* face is a cycle of corners seen from outside with the corners anticlock-  *)
(* wise in the Nastran numbering; a mid side node belongs to a pair of       *)
(* corners. An element denotes the set of its faces and its mid side nodes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Shapes == {"TETRA", "PYRA", "PENTA", "HEXA"}
NCorner(s) == CASE s = "TETRA" -> 4 [] s = "PYRA" -> 5 [] s = "PENTA" -> 6 [] s = "HEXA" -> 8
(* outward cycles, Nastran numbering *)
Cycles(s) ==
  CASE s = "TETRA" -> {<<1,3,2>>, <<1,2,4>>, <<2,3,4>>, <<3,1,4>>}
    [] s = "PYRA" -> {<<1,4,3,2>>, <<1,2,5>>, <<2,3,5>>, <<3,4,5>>, <<4,1,5>>}
    [] s = "PENTA" -> {<<1,3,2>>, <<4,5,6>>, <<1,2,5,4>>, <<2,3,6,5>>, <<3,1,4,6>>}
    [] s = "HEXA" -> {<<1,4,3,2>>, <<5,6,7,8>>, <<1,2,6,5>>, <<2,3,7,6>>, <<3,4,8,7>>, <<4,1,5,8>>}
(* pairs of corners that the mid side nodes belong to, in the order of the card *)
Base(n) == [i \in 1..n |-> <<i, (i % n) + 1>>]
NasEdges(s) ==
  CASE s = "TETRA" -> Base(3) \o <<<<1,4>>, <<2,4>>, <<3,4>>>>
    [] s = "PYRA" -> Base(4) \o <<<<1,5>>, <<2,5>>, <<3,5>>, <<4,5>>>>
    [] s = "PENTA" -> Base(3) \o <<<<1,4>>, <<2,5>>, <<3,6>>, <<4,5>>, <<5,6>>, <<6,4>>>>
    [] s = "HEXA" -> Base(4) \o <<<<1,5>>, <<2,6>>, <<3,7>>, <<4,8>>, <<5,6>>, <<6,7>>, <<7,8>>, <<8,5>>>>
(* the same in the order of a MED file *)
MedEdges(s) ==
  CASE s = "TETRA" -> NasEdges(s)
    [] s = "PYRA" -> NasEdges(s)
    [] s = "PENTA" -> Base(3) \o <<<<4,5>>, <<5,6>>, <<6,4>>, <<1,4>>, <<2,5>>, <<3,6>>>>
    [] s = "HEXA" -> Base(4) \o <<<<5,6>>, <<6,7>>, <<7,8>>, <<8,5>>, <<1,5>>, <<2,6>>, <<3,7>>, <<4,8>>>>
Rev(c) == [i \in 1..Len(c) |-> c[Len(c) + 1 - i]]
MedCycles(s) == {Rev(c) : c \in Cycles(s)}
(* a cycle starts anywhere *)
Rot(c, k) == [i \in 1..Len(c) |-> c[((i + k - 1) % Len(c)) + 1]]
MinPos(c) == CHOOSE i \in 1..Len(c) : \A j \in 1..Len(c) : c[i] <= c[j]
Canon(c) == Rot(c, MinPos(c) - 1)
NSide(s) == Len(NasEdges(s))
IsQuad(s, n) == Len(n) = NCorner(s) + NSide(s)
(* what a list of node identifiers denotes *)
Den(s, n, cyc, edges) == [faces |-> {Canon([i \in 1..Len(c) |-> n[c[i]]]) : c \in cyc},
                          mids |-> IF IsQuad(s, n) THEN {<<{n[edges[k][1]], n[edges[k][2]]}, n[NCorner(s) + k]>> : k \in 1..Len(edges)} ELSE {}]
NasDen(s, n) == Den(s, n, Cycles(s), NasEdges(s))
MedDen(s, n) == Den(s, n, MedCycles(s), MedEdges(s))
(* the faces of an element given in MED numbering, with the mid side nodes after the corners *)
EdgeMid(s, n, a, b) == LET k == CHOOSE i \in 1..NSide(s) : {MedEdges(s)[i][1], MedEdges(s)[i][2]} = {a, b} IN n[NCorner(s) + k]
WithMids(s, n, c) == LET L == Len(c) IN
   [i \in 1..L |-> n[c[i]]] \o (IF IsQuad(s, n) THEN [i \in 1..L |-> EdgeMid(s, n, c[i], c[(i % L) + 1])] ELSE <<>>)
(* two spellings of a face: rotating the corners rotates the mid side nodes with them *)
FaceKey(f, quad) == LET L == IF quad THEN Len(f) \div 2 ELSE Len(f)
                        c == [i \in 1..L |-> f[i]]
                        k == MinPos(c) - 1
                    IN IF quad THEN Rot(c, k) \o Rot([i \in 1..L |-> f[L + i]], k) ELSE Rot(c, k)
MedFaces(s, n) == {FaceKey(WithMids(s, n, c), IsQuad(s, n)) : c \in MedCycles(s)}
(* PLOAD4: the face that two corners designate (b = 0: only one is given) *)
On(c, x) == \E i \in 1..Len(c) : c[i] = x
Adjacent(c, a, b) == \E i \in 1..Len(c) : {c[i], c[(i % Len(c)) + 1]} = {a, b}
Designated(s, a, b) ==
  IF s = "TETRA" THEN {c \in MedCycles(s) : ~On(c, b)}
  ELSE IF b = 0 THEN {c \in MedCycles(s) : Len(c) = 3 /\ On(c, a)}
  ELSE {c \in MedCycles(s) : On(c, a) /\ On(c, b)}
(* conversion of a card to the order of a MED file: corners mirrored, each mid side node stays on its edge *)
Mirror(s) == CASE s = "TETRA" -> <<1,3,2,4>> [] s = "PYRA" -> <<1,4,3,2,5>> [] s = "PENTA" -> <<1,3,2,4,6,5>> [] s = "HEXA" -> <<1,4,3,2,5,8,7,6>>
ToMed(s, n) == LET M == Mirror(s)    \* MED corner k holds card corner M[k]
                   Pos(k) == CHOOSE j \in 1..NSide(s) : {NasEdges(s)[j][1], NasEdges(s)[j][2]} = {M[MedEdges(s)[k][1]], M[MedEdges(s)[k][2]]}
               IN [k \in 1..NCorner(s) |-> n[M[k]]] \o (IF IsQuad(s, n) THEN [k \in 1..NSide(s) |-> n[NCorner(s) + Pos(k)]] ELSE <<>>)
(* closed, consistently oriented surface: every directed edge once, its reverse once; a sphere *)
Directed(cyc) == UNION {{<<c[i], c[(i % Len(c)) + 1]>> : i \in 1..Len(c)} : c \in cyc}
NDirected(cyc) == LET RECURSIVE S(_) S(C) == IF C = {} THEN 0 ELSE LET c == CHOOSE x \in C : TRUE IN Len(c) + S(C \ {c}) IN S(cyc)
Closed(cyc) == Cardinality(Directed(cyc)) = NDirected(cyc) /\ \A e \in Directed(cyc) : <<e[2], e[1]>> \in Directed(cyc)
Sphere(s, cyc) == NCorner(s) - NDirected(cyc) \div 2 + Cardinality(cyc) = 2
=============================================================================
