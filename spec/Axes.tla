-------------------------------- MODULE Axes --------------------------------
(* The axes of a coordinate system at a point, and what vectors and           *)
(* components of displacement given along them are in the global frame.       *)
EXTENDS Frames
(* the axes of frame f at the point p (p.v over p.d), over the denominator d: *)
(* on the axis of a cylindrical frame those of its rectangular frame (d = 0:  *)
(* not said in whole numbers)                                                 *)
AxesOf(f, p) ==
  CASE f.t = "R" -> [d |-> f.d, e |-> <<f.x, f.y, f.z>>]
    [] f.t = "C" -> LET u == VSub(VMul(f.d, p.v), VMul(p.d, f.o))
                        ab == <<Dot(u, f.x), Dot(u, f.y), 0>> IN
                    IF ab = Zero3 THEN [d |-> f.d, e |-> <<f.x, f.y, f.z>>]
                    ELSE LET q == Prim(ab) l == PLen(q) IN
                         [d |-> f.d * l, e |-> <<VAdd(VMul(q[1], f.x), VMul(q[2], f.y)), VAdd(VMul(-q[2], f.x), VMul(q[1], f.y)), VMul(l, f.z)>>]
    [] OTHER -> [d |-> 0, e |-> <<>>]
Comb(A, n) == VAdd(VAdd(VMul(n[1], A.e[1]), VMul(n[2], A.e[2])), VMul(n[3], A.e[3]))    \* over A.d
(* a row says: the sum of the coefficients times the components is r; it is   *)
(* primitive and its first coefficient (by grid and component) is positive    *)
Key(x) == x[1] * 10 + x[2]
First(T) == CHOOSE x \in T : \A y \in T : Key(x) <= Key(y)
RECURSIVE GcdOf(_)
GcdOf(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN Gcd(x[3], GcdOf(T \ {x}))
Signed(row) == LET s == IF First(row.t)[3] < 0 THEN -1 ELSE 1 IN [t |-> {<<x[1], x[2], s * x[3]>> : x \in row.t}, r |-> s * row.r]
(* component c of grid g, whose axes are A, has the value v *)
RowOf(A, g, c, v) ==
  LET e == A.e[((c - 1) % 3) + 1] off == ((c - 1) \div 3) * 3
      p == Prim(e) l == A.d \div VGcd(e) IN
  Signed([t |-> {<<g, off + j, p[j]>> : j \in {j \in 1..3 : p[j] # 0}}, r |-> v * l * K])
RECURSIVE SumI(_)
SumI(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumI(Tail(q))
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
NoRow == [t |-> {}, r |-> 0]
(* the terms t[i] = <<grid, component, coefficient>>, along the axes A[i], add up to zero *)
RelOf(A, t) ==
  LET m == Max({A[i].d : i \in DOMAIN t})
      part(i, g, j) == LET c == t[i][2] IN IF t[i][1] = g /\ (c - 1) \div 3 = (j - 1) \div 3
                       THEN t[i][3] * (m \div A[i].d) * A[i].e[((c - 1) % 3) + 1][((j - 1) % 3) + 1] ELSE 0
      cf == {<<g, j, SumI([i \in 1..Len(t) |-> part(i, g, j)])>> : g \in {t[i][1] : i \in DOMAIN t}, j \in 1..6}
      nz == {x \in cf : x[3] # 0} k == GcdOf(nz) IN
  IF nz = {} THEN NoRow ELSE Signed([t |-> {<<x[1], x[2], x[3] \div k>> : x \in nz}, r |-> 0])
=============================================================================
