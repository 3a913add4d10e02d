------------------------------- MODULE Props -------------------------------
(* What the property and material cards of a deck say about every element:   *)
(* finite element, section or thickness, offset, orientation and material.   *)
(* A deck is a set of cards; all numbers are rationals (Rat).                *)
EXTENDS Rat, FiniteSets, TLC
ToSeqSorted(S) == LET f[X \in SUBSET S] == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o f[X \ {m}] IN f[S]
Of(D, k) == {c \in D : c.k = k}
Els(D) == Of(D, "EL")
PropKinds == {"PROD", "PBAR", "PBARL", "PBEAM", "PBEAML", "PSHELL", "PSOLID", "PCOMP"}
PropOf(D, e) == CHOOSE c \in D : c.k \in PropKinds /\ c.pid = e.pid
MatCard(D, m) == CHOOSE c \in D : c.k \in {"MAT1", "MAT8"} /\ c.mid = m
HasParam(D) == Of(D, "WTMASS") # {}
Mass(D) == IF HasParam(D) THEN (CHOOSE c \in D : c.k = "WTMASS").v ELSE <<1, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
Two == <<2, 1>>
--------------------------------------------------------------------------------
(* Elastic constants: the third of E, G and NU follows from E = 2 (1 + NU) G *)
E1(m) == IF ~IsBlank(m.e) THEN m.e ELSE IF IsBlank(m.nu) THEN Zero ELSE RMul(RMul(Two, RAdd(One, m.nu)), m.g)
NU1(m) == IF ~IsBlank(m.nu) THEN m.nu ELSE IF IsBlank(m.g) \/ IsBlank(m.e) THEN Zero ELSE RSub(RDiv(m.e, RMul(Two, m.g)), One)
G1(m) == IF ~IsBlank(m.g) THEN m.g ELSE IF IsBlank(m.nu) THEN Zero ELSE RDiv(m.e, RMul(Two, RAdd(One, m.nu)))
Rho(D, m) == RMul(Dflt(m.rho, Zero), Mass(D))
NoOrth == [f |-> "none"]
Iso(D, m) == [f |-> "ELAS", v |-> <<E1(m), NU1(m), Rho(D, m), m.ge>>]
(* E_L E_T NU_LT G_LT G_TN G_LN RHO XT XC YT YC S_LT ALPHA_L ALPHA_T *)
Orth(D, m) == [f |-> "ORTH", v |-> <<m.e1, m.e2, m.nu12, m.g12, m.g2z, m.g1z, Rho(D, m), m.xt, m.xc, m.yt, m.yc, m.s, m.a1, m.a2>>]
IsoAsOrth(D, m) == [f |-> "ORTH", v |-> <<E1(m), E1(m), NU1(m), G1(m), G1(m), G1(m), Rho(D, m), Blank, Blank, Blank, Blank, Blank, Blank, Blank>>]
Material(D, mid) == LET m == MatCard(D, mid) IN IF m.k = "MAT1" THEN Iso(D, m) ELSE Orth(D, m)
PlyMaterial(D, mid) == LET m == MatCard(D, mid) IN IF m.k = "MAT1" THEN IsoAsOrth(D, m) ELSE Orth(D, m)
--------------------------------------------------------------------------------
(* Beams: local y is the direction of plane 1, z of plane 2 *)
IArea(h1, e1, h2, e2) == RAdd(RMul(Two, RMul(h1, e1)), RMul(h2, e2))
Gen(a, iy, iz, j, ay, az) == [kw |-> "POUTRE", sec |-> "GENERALE", cara |-> <<"A", "IY", "IZ", "JX", "AY", "AZ">>, v |-> <<a, iy, iz, j, ay, az>>]
Dims(p) ==
  CASE p.t = "BAR" -> [kw |-> "POUTRE", sec |-> "RECTANGLE", cara |-> <<"HY", "HZ">>, v |-> <<p.d[2], p.d[1]>>]
    [] p.t = "ROD" -> [kw |-> "POUTRE", sec |-> "CERCLE", cara |-> <<"R">>, v |-> <<p.d[1]>>]
    [] p.t = "TUBE" -> [kw |-> "POUTRE", sec |-> "CERCLE", cara |-> <<"R", "EP">>, v |-> <<p.d[1], RSub(p.d[1], p.d[2])>>]
    [] p.t = "I" ->   \* height, width, width, web, flange, flange
         LET h1 == p.d[2] e1 == p.d[5] e2 == p.d[4] h2 == RSub(p.d[1], RMul(Two, e1)) a == IArea(h1, e1, h2, e2)
             iy == RDiv(RAdd(RMul(Two, RMul(RCube(h1), e1)), RMul(h2, RCube(e2))), <<12, 1>>)
             \* both flanges around their own axis and moved by (h2 + e1) / 2, and the web
             iz == RSum(<<RDiv(RMul(RCube(h2), e2), <<12, 1>>), RDiv(RMul(RCube(e1), h1), <<6, 1>>),
                          RDiv(RMul(RMul(e1, h1), RMul(RAdd(h2, e1), RAdd(h2, e1))), Two)>>)
             jx == RDiv(RAdd(RMul(Two, RMul(h1, RCube(e1))), RMul(h2, RCube(e2))), <<3, 1>>)
             s == RDiv(a, RMul(h2, e2)) IN Gen(a, iy, iz, jx, s, s)
Shear(k) == IF IsBlank(k) THEN Zero ELSE RInv(k)
Section(p) ==
  CASE p.k = "PBAR" -> <<Gen(p.a, Dflt(p.i2, Zero), Dflt(p.i1, Zero), Dflt(p.j, Zero), Shear(p.k1), Shear(p.k2))>>
    [] p.k = "PBEAM" -> <<Gen(p.a, Dflt(p.i2, Zero), Dflt(p.i1, Zero), Dflt(p.j, Zero), Zero, Zero)>>
    [] p.k \in {"PBARL", "PBEAML"} -> <<Dims(p)>>
    [] p.k = "PROD" -> <<[kw |-> "BARRE", sec |-> "GENERALE", cara |-> <<"A">>, v |-> <<p.a>>]>>
    [] OTHER -> <<>>
Formulation(p) ==
  CASE p.k \in {"PBAR", "PBARL", "PBEAML"} -> <<"POU_D_T">>
    [] p.k = "PBEAM" -> <<"POU_D_E">>
    [] p.k = "PROD" -> <<"BARRE">>
    [] p.k \in {"PSHELL", "PCOMP"} -> <<"DKT">>
    [] p.k = "PSOLID" -> IF p.in \in {"TWO", "2", "THREE", "3"} /\ p.isop \in {"FULL", "1"} THEN <<"3D">> ELSE <<"3D", "3D_SI">>
--------------------------------------------------------------------------------
(* Laminates: a blank material or thickness is that of the ply before, a blank angle is zero *)
RECURSIVE FullPlies(_, _, _)
FullPlies(s, m, t) == IF s = <<>> THEN <<>>
  ELSE LET p == Head(s) m2 == IF p.mid = 0 THEN m ELSE p.mid t2 == Dflt(p.t, t) IN
       <<[mid |-> m2, t |-> t2, th |-> Dflt(p.th, Zero)]>> \o FullPlies(Tail(s), m2, t2)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Plies(p) == LET f == FullPlies(p.plies, 0, Zero) IN IF p.lam = "SYM" THEN f \o RevSeq(f) ELSE f
Thick(p) == RSum([i \in 1..Len(Plies(p)) |-> Plies(p)[i].t])
Centre(p) == IF IsBlank(p.z0) THEN Zero ELSE RAdd(p.z0, RDiv(Thick(p), Two))
ShellOf(p, off) ==
  CASE p.k = "PSHELL" -> <<[ep |-> p.t, exc |-> off, n |-> 0]>>
    [] p.k = "PCOMP" -> <<[ep |-> Thick(p), exc |-> RAdd(Centre(p), off), n |-> Len(Plies(p))]>>
    [] OTHER -> <<>>
MatOf(D, p) == IF p.k = "PCOMP" THEN <<[f |-> "COMP", plies |-> [i \in 1..Len(Plies(p)) |-> [t |-> Plies(p)[i].t, th |-> Plies(p)[i].th, m |-> PlyMaterial(D, Plies(p)[i].mid)]]]>>
               ELSE <<Material(D, p.mid)>>
--------------------------------------------------------------------------------
AbsV(x) == IF x < 0 THEN -x ELSE x
Prim(v) == LET g == GcdI(AbsV(v[1]), GcdI(AbsV(v[2]), AbsV(v[3]))) IN <<v[1] \div g, v[2] \div g, v[3] \div g>>
XG(D, g) == (CHOOSE c \in Of(D, "GRID") : c.id = g).x
Orient(D, e) ==
  IF e.t \notin {"CBAR", "CBEAM"} THEN <<>>
  ELSE IF e.g0 # 0 THEN LET a == XG(D, e.n[1]) b == XG(D, e.g0) IN <<Prim(<<b[1] - a[1], b[2] - a[2], b[3] - a[3]>>)>>
  ELSE <<Prim(e.v)>>
PropFor(D, e) == IF e.t = "CONROD" THEN [k |-> "PROD", a |-> e.a, mid |-> e.mid, nsm |-> e.nsm] ELSE PropOf(D, e)
Den(D, e) ==
  LET p == PropFor(D, e) IN
  [n |-> ToSeqSorted({e.n[i] : i \in 1..Len(e.n)}), mod |-> <<Formulation(p)>>, beam |-> Section(p), coque |-> ShellOf(p, e.off),
   ori |-> Orient(D, e), mat |-> MatOf(D, p)]
--------------------------------------------------------------------------------
(* A non structural mass (per unit length or area) is carried by a second, massive but weightless in *)
(* stiffness, element of the same section: density = mass / section or thickness                     *)
Nsm(p) == IF p.k \in {"PROD", "PBAR", "PBARL", "PBEAM", "PBEAML", "PSHELL"} THEN p.nsm ELSE Blank
AreaOf(p) == CASE p.k = "PSHELL" -> p.t [] p.k \in {"PROD", "PBAR", "PBEAM"} -> p.a
               [] p.t = "BAR" -> RMul(p.d[1], p.d[2])
               [] p.t = "I" -> LET e1 == p.d[5] IN IArea(p.d[2], e1, RSub(p.d[1], RMul(Two, e1)), p.d[4])
MassDen(D, e) == LET p == PropFor(D, e) d == Den(D, e) IN
  [d EXCEPT !.mat = <<[f |-> "ELAS", v |-> <<Zero, Zero, RMul(RDiv(Nsm(p), AreaOf(p)), Mass(D)), Blank>>]>>]
HasMass(D, e) == ~IsBlank(Nsm(PropFor(D, e)))
=============================================================================
