------------------------------- MODULE Deck -------------------------------
(* The model a Nastran static deck denotes: what the cards read so far say  *)
(* about constraints, loads and kinematic relations, and what each analysis *)
(* of the deck is subjected to.  One action per card (Read); the operators  *)
(* Exp* are the meaning every translation has to preserve.                  *)
(* Degrees of freedom are 1..6 (DX DY DZ RX RY RZ).  Scale factors of LOAD  *)
(* cards are carried in halves, so a load amount is in quarters.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoSel == [spc |-> 0, mpc |-> 0, load |-> 0]
EmptyDeck == [grids |-> <<>>, els |-> {}, spc |-> {}, ps |-> {}, add |-> {}, nodal |-> {}, grav |-> {}, rot |-> {},
              pres |-> {}, imp |-> {}, comb |-> {}, mpc |-> {}, rigid |-> {}, rbe3 |-> {}, glob |-> NoSel, subs |-> <<>>,
              nlp |-> {}, nlg |-> 0, nls |-> <<>>, coms |-> <<>>, n |-> 0]

Range(s) == {s[i] : i \in DOMAIN s}
Max2(a, b) == IF a > b THEN a ELSE b

(* ---------------------------------------------------------------- cards *)
ElemDofs(t) == IF t \in {"CHEXA", "CTETRA", "CROD", "CONROD", "CPENTA", "CPYRAM"} THEN 1..3 ELSE 1..6
IsSolid(t) == t \in {"CHEXA", "CTETRA", "CPENTA", "CPYRAM"}

(* cross product and length of an axis aligned vector *)
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Abs(x) == IF x < 0 THEN -x ELSE x
AxisLen(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
Unit(v) == LET L == AxisLen(v) IN <<v[1] \div L, v[2] \div L, v[3] \div L>>   \* axis aligned vectors only

(* twice the area vector of a triangle or of a parallelogram given by its corners *)
Area2(d, g) == LET c == Cross(Minus(d.grids[g[2]], d.grids[g[1]]), Minus(d.grids[g[3]], d.grids[g[1]]))
               IN [q \in 1..3 |-> IF Len(g) = 4 THEN 2 * c[q] ELSE c[q]]

(* nodal amounts of one card: set of <<sid, node, component, amount, card number>> *)
Amount(d, sid, g, first, f, v) ==
  {<<sid, g, first + i, f * v[i], d.n>> : i \in {j \in 1..3 : f * v[j] # 0}}

Nl(c) == IF "nl" \in DOMAIN c THEN c.nl ELSE 0      \* the nonlinear strategy a case selects
Read(d0, c) ==
  LET d == [d0 EXCEPT !.n = @ + 1] IN
  CASE c.k = "GRID" -> [d EXCEPT !.grids = @ @@ (c.id :> c.x), !.ps = @ \cup {<<c.id, q>> : q \in Range(c.ps)}]
    [] c.k = "EL" -> [d EXCEPT !.els = @ \cup {[t |-> c.t, id |-> c.id, n |-> c.n]}]
    [] c.k = "SPC1" -> [d EXCEPT !.spc = @ \cup {<<c.sid, g, q, 0>> : g \in Range(c.nodes), q \in Range(c.dofs)}]
    [] c.k = "SPC" -> [d EXCEPT !.spc = @ \cup UNION {{<<c.sid, it[1], q, it[3]>> : q \in Range(it[2])} : it \in Range(c.items)}]
    [] c.k = "SPCADD" -> [d EXCEPT !.add = @ \cup {<<c.sid, s>> : s \in Range(c.sids)}]
    [] c.k = "FORCE" -> [d EXCEPT !.nodal = @ \cup Amount(d, c.sid, c.g, 0, c.f, c.v)]
    [] c.k = "MOMENT" -> [d EXCEPT !.nodal = @ \cup Amount(d, c.sid, c.g, 3, c.f, c.v)]
    [] c.k = "FORCE1" -> [d EXCEPT !.nodal = @ \cup Amount(d, c.sid, c.g, 0, c.f, Unit(Minus(d.grids[c.g2], d.grids[c.g1])))]
    [] c.k = "FORCE2" -> [d EXCEPT !.nodal = @ \cup Amount(d, c.sid, c.g, 0, c.f,
                             Unit(Cross(Minus(d.grids[c.g2], d.grids[c.g1]), Minus(d.grids[c.g4], d.grids[c.g3]))))]
    [] c.k = "GRAV" -> [d EXCEPT !.grav = @ \cup {<<c.sid, <<c.a * c.v[1], c.a * c.v[2], c.a * c.v[3]>>, d.n>>}]
    [] c.k = "RFORCE" -> [d EXCEPT !.rot = @ \cup {<<c.sid, [q \in 1..3 |-> c.a * c.v[q]], d.grids[c.g]>>}]
    [] c.k = "PLOAD2" -> [d EXCEPT !.pres = @ \cup {<<c.sid, <<"shell", e>>, c.p, d.n>> : e \in Range(c.els)}]
    [] c.k = "PLOAD4" -> [d EXCEPT !.pres = @ \cup {<<c.sid, <<"shell", e>>, c.p, d.n>> : e \in {el.id : el \in {x \in d.els : x.id \in c.e1..c.e2}}}]
    [] c.k = "PFACE" -> [d EXCEPT !.pres = @ \cup {<<c.sid, <<"face", Range(c.face)>>, c.p, d.n>>}]
    [] c.k = "PFACEV" -> [d EXCEPT !.pres = @ \cup {<<c.sid, <<"trac", <<c.e, Range(c.face), q>>>>, c.p * Unit(c.v)[q], d.n>> : q \in {j \in 1..3 : c.v[j] # 0}}]
    [] c.k = "PLOAD" -> LET A == Area2(d, c.g) IN     \* p * area / number of corners on each corner, along the normal
                        [d EXCEPT !.nodal = @ \cup UNION {Amount(d, c.sid, g, 0, 1, [q \in 1..3 |-> (c.p * A[q]) \div (2 * Len(c.g))]) : g \in Range(c.g)}]
    [] c.k = "SPCD" -> [d EXCEPT !.imp = @ \cup UNION {{<<c.sid, it[1], q, it[3]>> : q \in Range(it[2])} : it \in Range(c.items)}]
    [] c.k = "LOAD" -> [d EXCEPT !.comb = @ \cup {<<c.sid, c.s2, i, c.terms[i][1], c.terms[i][2]>> : i \in DOMAIN c.terms}]
    [] c.k = "MPC" -> [d EXCEPT !.mpc = @ \cup {<<c.sid, c.terms, d.n>>}]
    [] c.k \in {"RBE2", "CRIGD1"} -> [d EXCEPT !.rigid = @ \cup {<<c.m, s, Range(c.dofs)>> : s \in Range(c.slaves)}]
    [] c.k \in {"RBAR", "RBAR1"} -> [d EXCEPT !.rigid = @ \cup {<<c.m, c.s, Range(c.dofs)>>}]
    [] c.k = "RBE3" -> [d EXCEPT !.rbe3 = @ \cup {[m |-> c.m, dofs |-> Range(c.dofs), n |-> d.n,
                             sl |-> {<<g, Range(c.groups[i][2]), c.groups[i][1]>> : i \in DOMAIN c.groups, g \in UNION {Range(c.groups[j][3]) : j \in DOMAIN c.groups}}
                                    \cap UNION {{<<g, Range(c.groups[i][2]), c.groups[i][1]>> : g \in Range(c.groups[i][3])} : i \in DOMAIN c.groups}]}]
    \* a linear combination of the subcases just before it, the last coefficient (in halves) for the most recent one
    [] c.k = "SUBCOM" -> [d EXCEPT !.coms = Append(@, [id |-> c.id, of |-> {<<Len(d.subs) - Len(c.co) + i, c.co[i]>> : i \in DOMAIN c.co}])]
    [] c.k = "NLPARM" -> [d EXCEPT !.nlp = @ \cup {<<c.sid, c.ninc>>}]
    [] c.k = "GLOB" -> [d EXCEPT !.glob = [spc |-> c.spc, mpc |-> c.mpc, load |-> c.load], !.nlg = Nl(c)]
    [] c.k = "SUB" -> [d EXCEPT !.subs = Append(@, [id |-> c.id, sel |-> [spc |-> c.spc, mpc |-> c.mpc, load |-> c.load]]), !.nls = Append(@, Nl(c))]

(* -------------------------------------------------------------- analyses *)
NAn(d) == IF d.subs = <<>> THEN 1 ELSE Len(d.subs)
AnId(d, i) == IF d.subs = <<>> THEN -1 ELSE d.subs[i].id
Pick(a, b) == IF a # 0 THEN a ELSE b
Sel(d, i) == IF d.subs = <<>> THEN d.glob
             ELSE [spc |-> Pick(d.subs[i].sel.spc, d.glob.spc), mpc |-> Pick(d.subs[i].sel.mpc, d.glob.mpc), load |-> Pick(d.subs[i].sel.load, d.glob.load)]
ExpCases(d) == [i \in 1..NAn(d) |-> [id |-> AnId(d, i), sel |-> Sel(d, i)]]

SpcSids(d, s) == IF s = 0 THEN {} ELSE {s} \cup {p[2] : p \in {q \in d.add : q[1] = s}}
(* load contributions of a set: <<component set id, factor in quarters>> *)
LoadParts(d, s) ==
  IF s = 0 THEN {}
  ELSE LET C == {c \in d.comb : c[1] = s} IN {<<s, 0, 4>>} \cup {<<c[5], c[3], c[2] * c[4]>> : c \in C}

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + Sum(S \ {x})

(* sum of amounts by key:  set of <<key, tag, amount>>  ->  set of <<key.., total>> *)
Totals(T) == LET K == {t[1] : t \in T} IN
             {kv \in {<<k, Sum({<<t[2], t[3]>> : t \in {u \in T : u[1] = k}})>> : k \in K} : kv[2] # 0}

SpcOf(d, i) == {<<p[1], p[2], 0>> : p \in d.ps} \cup {<<s[2], s[3], s[4]>> : s \in {t \in d.spc : t[1] \in SpcSids(d, Sel(d, i).spc)}}
ImpOf(d, i) == LET P == LoadParts(d, Sel(d, i).load) IN
               {kv \in {<<<<x[2], x[3]>>, x[4] * p[3]>> : x \in d.imp, p \in P} :
                  \E x \in d.imp, p \in P : p[1] = x[1] /\ kv = <<<<x[2], x[3]>>, x[4] * p[3]>>}
(* an imposed displacement takes the place of a single point constraint on the same component; in quarters *)
ExpSpc(d, i) == LET I == ImpOf(d, i) IN
                {<<s[1], s[2], 4 * s[3]>> : s \in {t \in SpcOf(d, i) : ~\E m \in I : m[1] = <<t[1], t[2]>>}}
                \cup {<<m[1][1], m[1][2], m[2]>> : m \in I}
Conflict(d, i) == \E a, b \in SpcOf(d, i) : a[1] = b[1] /\ a[2] = b[2] /\ a[3] # b[3]
AnyConflict(d) == \E i \in 1..NAn(d) : Conflict(d, i)

ExpNodal(d, i) == LET P == LoadParts(d, Sel(d, i).load) IN
  Totals(UNION {{<< <<x[2], x[3]>>, <<x[5], p[1], p[2]>>, x[4] * p[3]>> : x \in {y \in d.nodal : y[1] = p[1]}} : p \in P})
ExpPres(d, i) == LET P == LoadParts(d, Sel(d, i).load) IN
  Totals(UNION {{<< x[2], <<x[4], p[1], p[2]>>, x[3] * p[3]>> : x \in {y \in d.pres : y[1] = p[1]}} : p \in P})
ExpGrav(d, i) == LET P == LoadParts(d, Sel(d, i).load) IN
  Totals(UNION {UNION {{<<k, <<x[3], p[1], p[2]>>, x[2][k] * p[3]>> : k \in 1..3} : x \in {y \in d.grav : y[1] = p[1]}} : p \in P})
ExpRot(d, i) == LET P == LoadParts(d, Sel(d, i).load) IN
  UNION {{<<[q \in 1..3 |-> x[2][q] * p[3]], x[3]>> : x \in {y \in d.rot : y[1] = p[1]}} : p \in P}

(* -------------------------------------------------------------- relations *)
(* A row is a function from columns <<node, dof>> to non zero integers; column <<0, 0>> is the right hand side *)
RowOf(T) == LET K == {<<t[1], t[2]>> : t \in T}
                V(k) == Sum({<<t, t[3]>> : t \in {u \in T : <<u[1], u[2]>> = k}})
            IN [k \in {c \in K : V(c) # 0} |-> V(k)]
SeqRow(s) == LET K == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
                 V(k) == Sum({<<i, s[i][3]>> : i \in {j \in DOMAIN s : <<s[j][1], s[j][2]>> = k}})
             IN [k \in {c \in K : V(c) # 0} |-> V(k)]
(* dependent dof q of slave s follows master m:  u_s = u_m + theta_m x r *)
RigidRow(d, m, s, q) ==
  LET r == Minus(d.grids[s], d.grids[m]) IN
  RowOf({<<s, q, 1>>, <<m, q, -1>>} \cup
        (CASE q = 1 -> {<<m, 5, -r[3]>>, <<m, 6, r[2]>>}
           [] q = 2 -> {<<m, 6, -r[1]>>, <<m, 4, r[3]>>}
           [] q = 3 -> {<<m, 4, -r[2]>>, <<m, 5, r[1]>>}
           [] OTHER -> {}))
ExpRows(d, i) == {SeqRow(x[2]) : x \in {y \in d.mpc : y[1] = Sel(d, i).mpc}}
                 \cup UNION {{RigidRow(d, g[1], g[2], q) : q \in g[3]} : g \in d.rigid}

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
RECURSIVE GcdAll(_)
GcdAll(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Gcd(GcdAll(S \ {x}), x)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Lead(r) == CHOOSE c \in DOMAIN r : \A e \in DOMAIN r : e = c \/ Less(e, c)   \* pivot on the largest column; <<0,0>> is last
Norm(r) == LET g == GcdAll({r[c] : c \in DOMAIN r})
               s == IF r[Lead(r)] < 0 THEN -g ELSE g
           IN IF DOMAIN r = {} THEN r ELSE [c \in DOMAIN r |-> IF s > 0 THEN r[c] \div g ELSE -(r[c] \div g)]
Comb(a, r, b, q) == \* a*r + b*q
  LET D == DOMAIN r \cup DOMAIN q
      V(c) == a * (IF c \in DOMAIN r THEN r[c] ELSE 0) + b * (IF c \in DOMAIN q THEN q[c] ELSE 0)
  IN [c \in {x \in D : V(x) # 0} |-> V(c)]
Elim(r, p, c) == IF c \in DOMAIN r THEN Norm(Comb(p[c], r, -r[c], p)) ELSE r
RECURSIVE Reduce(_, _)
Reduce(todo, done) ==
  LET R == {r \in todo : DOMAIN r # {}} IN
  IF R = {} THEN done
  ELSE LET p == Norm(CHOOSE r \in R : \A q \in R : Lead(q) = Lead(r) \/ Less(Lead(q), Lead(r)))
           c == Lead(p)
       IN Reduce({Elim(r, p, c) : r \in R} , {Elim(r, p, c) : r \in done} \cup {p})
Space(rows) == Reduce({r \in rows : DOMAIN r # {}}, {})
ExpSpace(d, i) == Space(ExpRows(d, i))
(* relations equivalent to moving a list of nodes as one rigid body *)
SolidRows(d, nodes) == UNION {{RigidRow(d, nodes[1], nodes[k], q) : q \in 1..6} : k \in 2..Len(nodes)}
=============================================================================
