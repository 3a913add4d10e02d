---------------------------- MODULE LocalFrames ----------------------------
(* Loads and displacement constraints given in local coordinate systems.     *)
(* A force or a moment is given in the system cid of its card; a blocked or   *)
(* imposed component and the terms of a multipoint constraint are components  *)
(* in the displacement system cd of their grid point. A system is rectangular *)
(* or cylindrical (axes: radial, tangential and axial at the grid point).     *)
(* D is the list of the cards, in any order.                                  *)
EXTENDS MeshIO, Axes
CdOf(D, g) == LET e == GridOf(D, g) IN IF e.cd = -1 THEN DefCd(D) ELSE e.cd
AxesAt(D, c, g) == AxesOf(FrameIn(D, c), PosIn(D, g))
(* ------------------------------------------------------------------- loads *)
RECURSIVE SumV(_)
SumV(q) == IF q = <<>> THEN Zero3 ELSE VAdd(Head(q), SumV(Tail(q)))
LoadOn(D, k, sid, g) ==
  LET q == SelectSeq(D, LAMBDA e : e.k = k /\ e.sid = sid /\ e.g = g)
      w(e) == LET A == AxesAt(D, e.cid, g) IN Scaled(VMul(e.f, Comb(A, e.n)), A.d)
  IN SumV([i \in 1..Len(q) |-> w(q[i])])
(* ------------------------------------------------------------- constraints *)
SpcRow(D, g, c, v) == RowOf(AxesAt(D, CdOf(D, g), g), g, c, v)
MpcRow(D, t) == RelOf([i \in DOMAIN t |-> AxesAt(D, CdOf(D, t[i][1]), t[i][1])], t)
Rows(D, spc, mpc) ==
  UNION {{SpcRow(D, e.id, e.ps[i], 0) : i \in DOMAIN e.ps} : e \in CardsK(D, "GRID")}
  \cup UNION {{SpcRow(D, e.g, e.c[i], e.v) : i \in DOMAIN e.c} : e \in {e \in CardsK(D, "SPC") : e.sid = spc}}
  \cup UNION {{SpcRow(D, e.gs[j], e.c[i], 0) : i \in DOMAIN e.c, j \in DOMAIN e.gs} : e \in {e \in CardsK(D, "SPC1") : e.sid = spc}}
  \cup ({MpcRow(D, e.t) : e \in {e \in CardsK(D, "MPC") : e.sid = mpc}} \ {NoRow})
=============================================================================
