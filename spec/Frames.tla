------------------------------- MODULE Frames -------------------------------
(* Coordinate systems. A frame has an origin o and three axes x, y, z, given *)
(* as integer vectors over the common denominator d in the global frame.     *)
(* CORD2x gives three points in the reference frame: the origin, a point on  *)
(* the z axis and a point in the half plane xz (x > 0); CORD1R gives them as *)
(* grid points. Points are integers, directions of length 1, 5, 25 (3-4-5).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VMul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
VGcd(v) == Gcd(Gcd(v[1], v[2]), v[3])
VDiv(v, k) == <<v[1] \div k, v[2] \div k, v[3] \div k>>   \* exact divisions only
Zero3 == <<0, 0, 0>>
Prim(v) == VDiv(v, VGcd(v))
(* length of a primitive vector, 0 when it is not a whole number of interest *)
PLen(p) == CASE Dot(p, p) = 1 -> 1 [] Dot(p, p) = 25 -> 5 [] Dot(p, p) = 625 -> 25 [] OTHER -> 0
Max2(a, b) == IF a > b THEN a ELSE b

GlobalFrame == [t |-> "R", d |-> 1, o |-> Zero3, x |-> <<1,0,0>>, y |-> <<0,1,0>>, z |-> <<0,0,1>>]
(* vector and point with rectangular components v in frame f; results over f.d *)
VecG(f, v) == VAdd(VAdd(VMul(v[1], f.x), VMul(v[2], f.y)), VMul(v[3], f.z))
PosG(f, p) == VAdd(f.o, VecG(f, p))
Normal(f) == LET g == Gcd(Gcd(f.d, VGcd(f.o)), Gcd(Gcd(VGcd(f.x), VGcd(f.y)), VGcd(f.z)))
             IN [f EXCEPT !.d = f.d \div g, !.o = VDiv(f.o, g), !.x = VDiv(f.x, g), !.y = VDiv(f.y, g), !.z = VDiv(f.z, g)]
(* the part of v orthogonal to the primitive vector p, as a primitive vector *)
OrthPrim(v, p) == LET w == VSub(VMul(Dot(p, p), v), VMul(Dot(v, p), p)) IN IF w = Zero3 THEN Zero3 ELSE Prim(w)
Axes(a, b, c) == LET pz == Prim(VSub(b, a)) px == OrthPrim(VSub(c, a), pz) IN <<px, pz>>
Definable(a, b, c) == b # a /\ LET ax == Axes(a, b, c) IN PLen(ax[2]) > 0 /\ ax[1] # Zero3 /\ PLen(ax[1]) > 0
(* the frame of type t given by three points with integer components over f.d1 in the frame f *)
FrameOn(t, f, a, b, c) ==
  LET ax == Axes(a, b, c) lx == PLen(ax[1]) lz == PLen(ax[2]) L == lx * lz
      py == Cross(ax[2], ax[1])     \* over lx * lz
  IN Normal([t |-> t, d |-> f.d * L, o |-> VMul(L, PosG(f, a)), x |-> VecG(f, VMul(lz, ax[1])), y |-> VecG(f, py), z |-> VecG(f, VMul(lx, ax[2]))])
(* ... by three points of the global frame over the denominator d *)
FrameAt(t, d, a, b, c) ==
  LET ax == Axes(a, b, c) lx == PLen(ax[1]) lz == PLen(ax[2]) L == lx * lz
  IN Normal([t |-> t, d |-> d * L, o |-> VMul(L, a), x |-> VMul(d * lz, ax[1]), y |-> VMul(d, Cross(ax[2], ax[1])), z |-> VMul(d * lx, ax[2])])
(* curvilinear components, angles in right angles *)
Cos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin(k) == Cos(k - 1)
Rect(t, p) == CASE t = "R" -> p
                [] t = "C" -> LET q == p[2] \div 90 IN <<p[1] * Cos(q), p[1] * Sin(q), p[3]>>
                [] t = "S" -> LET q == p[2] \div 90 r == p[3] \div 90 IN <<p[1] * Sin(q) * Cos(r), p[1] * Sin(q) * Sin(r), p[1] * Cos(q)>>
PointG(f, p) == PosG(f, Rect(f.t, p))      \* over f.d
K == 1000
Scaled(v, d) == <<(v[1] * K) \div d, (v[2] * K) \div d, (v[3] * K) \div d>>
Exact(d) == d \in {1, 5, 25, 125}
Orthonormal(f) == /\ Dot(f.x, f.x) = f.d * f.d /\ Dot(f.y, f.y) = f.d * f.d /\ Dot(f.z, f.z) = f.d * f.d
                  /\ Dot(f.x, f.y) = 0 /\ Dot(f.y, f.z) = 0 /\ Dot(f.x, f.z) = 0
                  /\ Cross(f.x, f.y) = VMul(f.d, f.z)
=============================================================================
