---------------------------- MODULE MC_Discrete ----------------------------
(* The matrices of Discrete.tla are those of the energies: a spring stores    *)
(* k (ua - ub)^2, a bush the sum over its directions, a mass moving with its   *)
(* grid point m |v + w x X|^2 + w.I w, and a direct matrix what it says.       *)
EXTENDS Discrete
CONSTANT Variant, Max
VARIABLES D, u
vars == <<D, u>>
Init == D = <<>> /\ u = <<>>
Card(k) == [k |-> k]
Ends == {<<1, 1, 2, 1>>, <<1, 2, 2, 6>>, <<2, 1, 1, 4>>, <<1, 3, 0, 3>>, <<1, 1, 1, 5>>, <<2, 6, 0, 6>>}
Spring == \E k \in {"CELAS2", "CMASS2"}, q \in Ends, v \in {3, -2} :
            D' = Append(D, Card(k) @@ [id |-> Len(D) + 1, v |-> v, g1 |-> q[1], c1 |-> q[2], g2 |-> q[3], c2 |-> q[4]])
Shared == \E q \in Ends : D' = D \o <<Card("CELAS1") @@ [id |-> Len(D) + 1, pid |-> 7, g1 |-> q[1], c1 |-> q[2], g2 |-> q[3], c2 |-> q[4]],
                                      Card("CDAMP1") @@ [id |-> Len(D) + 2, pid |-> 8, g1 |-> q[1], c1 |-> q[2], g2 |-> q[3], c2 |-> q[4]],
                                      Card("PELAS") @@ [id |-> 7, v |-> 5], Card("PDAMP") @@ [id |-> 8, v |-> 9]>>
Bushes == \E g2 \in {0, 2} : D' = D \o <<Card("PBUSH") @@ [id |-> 9, kk |-> <<1, 2, 3, 4, 5, 6>>, bb |-> <<0, 7, 0, 0, 0, 1>>],
                                         Card("CBUSH") @@ [id |-> Len(D) + 1, pid |-> 9, g1 |-> 1, g2 |-> g2]>>
Mass == \/ \E x \in {<<0, 0, 0>>, <<1, -2, 3>>, <<0, 2, 0>>}, i \in {<<0, 0, 0, 0, 0, 0>>, <<4, 1, 5, 2, 3, 6>>} :
             D' = Append(D, Card("CONM2") @@ [id |-> Len(D) + 1, g1 |-> 1, v |-> 2, x |-> x, i |-> i])
        \/ D' = Append(D, Card("CONM1") @@ [id |-> Len(D) + 1, g1 |-> 2, t |-> [j \in 1..21 |-> j % 4]])
Direct == \E m \in {"K", "B", "M"}, r \in {<<<<1, 2, 4>>>>, <<<<2, 1, 3>>, <<1, 5, -1>>>>} : D' = Append(D, Card("DMIG") @@ [m |-> m, g1 |-> 1, c1 |-> 2, rows |-> r])
Us == {[g \in 1..2 |-> [c \in 1..6 |-> IF <<g, c>> = p THEN 1 ELSE IF <<g, c>> = q THEN -2 ELSE 0]] : p, q \in {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, <<2, 1>>, <<2, 6>>}}
        \cup {<<<<1, 2, -1, 3, 1, 2>>, <<0, 1, 2, -1, 1, 1>>>>}
Move == u = <<>> /\ D # <<>> /\ \E w \in Us : u' = w /\ UNCHANGED D
Add == u = <<>> /\ Cardinality({i \in DOMAIN D : D[i].k \in {"CELAS2", "CMASS2", "CELAS1", "CBUSH", "CONM1", "CONM2", "DMIG"}}) < Max /\ UNCHANGED u
AddSpring == Add /\ Spring
AddShared == Add /\ Shared
AddBush == Add /\ Bushes
AddMass == Add /\ Mass
AddDirect == Add /\ Direct
Next == AddSpring \/ AddShared \/ AddBush \/ AddMass \/ AddDirect \/ Move
Spec == Init /\ [][Next]_vars
At(a) == u[a[1]][a[2]]
Sq(x) == x * x
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Between(e, k) == IF e.g2 = 0 THEN k * Sq(u[e.g1][e.c1]) ELSE k * Sq(u[e.g1][e.c1] - u[e.g2][e.c2])
Dir(e, c, k) == Between([g1 |-> e.g1, c1 |-> c, g2 |-> e.g2, c2 |-> c], k)
Energy(m, e) ==
  CASE e.k = "CELAS1" /\ m = "K" -> Between(e, Prop(D, "PELAS", e.pid).v)
    [] e.k = "CELAS2" /\ m = "K" -> Between(e, e.v)
    [] e.k = "CDAMP1" /\ m = "B" -> Between(e, Prop(D, "PDAMP", e.pid).v)
    [] e.k = "CMASS2" /\ m = "M" -> Between(e, e.v)
    [] e.k = "CBUSH" /\ m \in {"K", "B"} -> Sum([c \in 1..6 |-> Dir(e, c, IF m = "K" THEN Prop(D, "PBUSH", e.pid).kk[c] ELSE Prop(D, "PBUSH", e.pid).bb[c])])
    [] e.k = "CONM1" /\ m = "M" -> Sum([r \in 1..6 |-> u[e.g1][r] * Sum([c \in 1..6 |-> e.t[IF c <= r THEN Tri(r, c) ELSE Tri(c, r)] * u[e.g1][c]])])
    [] e.k = "CONM2" /\ m = "M" ->
         LET v == u[e.g1] X == e.x I == e.i
             at == <<v[1] + v[5] * X[3] - v[6] * X[2], v[2] + v[6] * X[1] - v[4] * X[3], v[3] + v[4] * X[2] - v[5] * X[1]>>
         IN e.v * (Sq(at[1]) + Sq(at[2]) + Sq(at[3]))
            + I[1] * Sq(v[4]) + I[3] * Sq(v[5]) + I[6] * Sq(v[6]) - 2 * (I[2] * v[4] * v[5] + I[4] * v[4] * v[6] + I[5] * v[5] * v[6])
    [] e.k = "DMIG" /\ m = e.m -> Sum([i \in DOMAIN e.rows |-> LET a == <<e.g1, e.c1>> b == <<e.rows[i][1], e.rows[i][2]>> IN (IF a = b THEN 1 ELSE 2) * e.rows[i][3] * At(a) * At(b)])
    [] OTHER -> 0
Wrong(q) == CASE Variant = "twice" -> [i \in DOMAIN q |-> IF q[i].a # q[i].b THEN [q[i] EXCEPT !.v = 2 * @] ELSE q[i]]
              [] Variant = "arm" -> [i \in DOMAIN q |-> IF q[i].m = "M" /\ q[i].a[1] = q[i].b[1] /\ q[i].a[2] < 4 /\ q[i].b[2] > 3 THEN [q[i] EXCEPT !.v = -@] ELSE q[i]]
              [] Variant = "ground" -> SelectSeq(q, LAMBDA x : x.a # x.b \/ x.a[2] # 3)
              [] OTHER -> q
RECURSIVE Quad(_)
Quad(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN (IF x[2] = x[3] THEN 1 ELSE 2) * x[4] * At(x[2]) * At(x[3]) + Quad(S \ {x})
Energies == u # <<>> => LET T == Totals(Wrong(Entries(D))) IN \A m \in {"K", "B", "M"} : Quad({x \in T : x[1] = m}) = Sum([i \in DOMAIN D |-> Energy(m, D[i])])
=============================================================================
