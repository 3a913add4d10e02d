------------------------------ MODULE Discrete ------------------------------
(* Scalar springs, dampers and masses, bushes, concentrated masses and direct *)
(* matrices. Whatever the elements are written as, the stiffness K, damping B *)
(* and mass M that the study gives to the components of the grid points are   *)
(* the sums of the contributions of the cards. A component is <<grid, c>>; an *)
(* entry of a symmetric matrix is [m, a, b, v]: v at (a, b) and at (b, a).    *)
(* D is the list of the cards, in any order; g2 = 0 is the ground.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RangeOf(q) == {q[i] : i \in DOMAIN q}
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Ent(m, a, b, v) == IF Le(a, b) THEN [m |-> m, a |-> a, b |-> b, v |-> v] ELSE [m |-> m, a |-> b, b |-> a, v |-> v]
(* a spring, damper or mass between two components, or to the ground *)
Pair(m, a, b, k) == <<Ent(m, a, a, k), Ent(m, b, b, k), Ent(m, a, b, -k)>>
Link(m, g1, c1, g2, c2, k) == IF g2 = 0 THEN <<Ent(m, <<g1, c1>>, <<g1, c1>>, k)>> ELSE Pair(m, <<g1, c1>>, <<g2, c2>>, k)
Prop(D, k, id) == D[CHOOSE i \in DOMAIN D : D[i].k = k /\ D[i].id = id]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Bush(e, p) == Cat([c \in 1..6 |-> Link("K", e.g1, c, e.g2, c, p.kk[c])]) \o Cat([c \in 1..6 |-> Link("B", e.g1, c, e.g2, c, p.bb[c])])
(* CONM1: the lower triangle of the 6x6 mass matrix, row by row *)
Tri(r, c) == (r * (r - 1)) \div 2 + c
Conm1(e) == Cat([r \in 1..6 |-> [c \in 1..r |-> Ent("M", <<e.g1, r>>, <<e.g1, c>>, e.t[Tri(r, c)])]])
(* CONM2: a mass at x from the grid point, rigidly linked; i = I11 I21 I22 I31 I32 I33 at the mass *)
Conm2(e) ==
  LET m == e.v X == e.x[1] Y == e.x[2] Z == e.x[3]
      d(c1, c2, v) == Ent("M", <<e.g1, c1>>, <<e.g1, c2>>, v)
  IN <<d(1, 1, m), d(2, 2, m), d(3, 3, m),
       d(1, 5, m * Z), d(1, 6, -(m * Y)), d(2, 4, -(m * Z)), d(2, 6, m * X), d(3, 4, m * Y), d(3, 5, -(m * X)),
       d(4, 4, e.i[1] + m * (Y * Y + Z * Z)), d(5, 5, e.i[3] + m * (X * X + Z * Z)), d(6, 6, e.i[6] + m * (X * X + Y * Y)),
       d(4, 5, -(e.i[2] + m * X * Y)), d(4, 6, -(e.i[4] + m * X * Z)), d(5, 6, -(e.i[5] + m * Y * Z))>>
(* DMIG: one column of a direct matrix *)
Column(e) == [i \in DOMAIN e.rows |-> Ent(e.m, <<e.g1, e.c1>>, <<e.rows[i][1], e.rows[i][2]>>, e.rows[i][3])]
Contribution(D, e) ==
  CASE e.k = "CELAS1" -> Link("K", e.g1, e.c1, e.g2, e.c2, Prop(D, "PELAS", e.pid).v)
    [] e.k = "CELAS2" -> Link("K", e.g1, e.c1, e.g2, e.c2, e.v)
    [] e.k = "CDAMP1" -> Link("B", e.g1, e.c1, e.g2, e.c2, Prop(D, "PDAMP", e.pid).v)
    [] e.k = "CMASS2" -> Link("M", e.g1, e.c1, e.g2, e.c2, e.v)
    [] e.k = "CBUSH" -> Bush(e, Prop(D, "PBUSH", e.pid))
    [] e.k = "CONM1" -> Conm1(e)
    [] e.k = "CONM2" -> Conm2(e)
    [] e.k = "DMIG" -> Column(e)
    [] OTHER -> <<>>
Entries(D) == Cat([i \in DOMAIN D |-> Contribution(D, D[i])])
RECURSIVE SumV(_)
SumV(q) == IF q = <<>> THEN 0 ELSE Head(q).v + SumV(Tail(q))
(* the matrices: the sums, without the null terms *)
Totals(q) ==
  LET P == {<<x.m, x.a, x.b>> : x \in RangeOf(q)}
      t(p) == SumV(SelectSeq(q, LAMBDA x : x.m = p[1] /\ x.a = p[2] /\ x.b = p[3]))
  IN {x \in {<<p[1], p[2], p[3], t(p)>> : p \in P} : x[4] # 0}
(* components with a coefficient, and components the deck blocks *)
Held(T) == {x[2] : x \in T} \cup {x[3] : x \in T}
Blocked(D) == UNION {{<<e.gs[i], e.c[j]>> : i \in DOMAIN e.gs, j \in DOMAIN e.c} : e \in {e \in RangeOf(D) : e.k = "SPC1"}}
=============================================================================
