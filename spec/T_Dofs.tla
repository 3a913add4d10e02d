------------------------------- MODULE T_Dofs -------------------------------
(* Results of operations of the code against those of Dofs.                   *)
EXTENDS Dofs, TLC, Json, IOUtils
VARIABLES l, S, M, C, cname
vars == <<l, S, M, C, cname>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ cname = "" /\ S = [r \in 1..3 |-> {}] /\ M = [r \in 1..2 |-> NewM(0)] /\ C = [r \in 1..2 |-> ZeroC]
Case == E.ev = "case" /\ cname' = E.name /\ S' = [r \in 1..3 |-> {}] /\ M' = [r \in 1..2 |-> NewM(0)] /\ C' = [r \in 1..2 |-> ZeroC]
A(i) == E.a[i]
B(x) == IF x THEN 1 ELSE 0
(* all 64 x 64 pairs: join, difference, two intersections, containment, overlap, equality *)
Pair(x, y) == LET P == SetOf(x) Q == SetOf(y) IN <<Mask(P \cup Q), Mask(P \ Q), Mask(P \cap Q), Mask(P \cap Q), B(Q \subseteq P), B(P \cap Q # {}), B(P = Q)>>
Single(x) == LET P == SetOf(x) IN
  <<x, Cardinality(P), B(P = {}), CodeOf(Sorted(P)), CodeOf(Sorted(P)), x>>
  \o [i \in 1..24 |-> LET d == ((i - 1) \div 4) + 1 k == (i - 1) % 4 IN
        CASE k = 0 -> B(d \in P) [] k = 1 -> Mask(P \cup {d}) [] k = 2 -> Mask(P \ {d}) [] OTHER -> Mask(P \cup {d})]
PairsOk == Len(E.res) = 7 * 4096 /\ \A x, y \in 0..63 : LET p == Pair(x, y) o == 7 * (64 * x + y) IN \A i \in 1..7 : E.res[o + i] = p[i]
SinglesOk == Len(E.res) = 30 * 64 /\ \A x \in 0..63 : LET p == Single(x) IN \A i \in 1..30 : E.res[30 * x + i] = p[i]
SetOp(r, v) == S' = [S EXCEPT ![r] = v] /\ UNCHANGED <<M, C>> /\ Check(E.o, E.res = <<Mask(v)>>, Mask(v))
ValidCode(c) == Digits(c) \subseteq Dof
(* answers about a matrix; where only zeros were stored the code may or may not count them *)
Loose(x, must, may) == (x = 1 /\ may) \/ (x = 0 /\ ~must)
Nz(m) == [t |-> m.t, st |-> [k \in {j \in DOMAIN m.st : m.st[j] # 0} |-> m.st[k]]]
Vec(o, v) == E.res[o] = Len(v) /\ \A i \in DOMAIN v : E.res[o + i] = v[i]
MQ(m, b) ==
  LET z == Nz(m) o == 36 r == E.res[o + 2] = 1 n == Size(m, r)
      o1 == o + 9 o2 == o1 + 1 + n o3 == o2 + 1 + N o4 == o3 + 1 + (n * (n + 1)) \div 2 o5 == o4 + 1 + (N * (N + 1)) \div 2 o6 == o5 + 1 + n * n IN
  /\ Check("table", \A i, j \in Dof : E.res[6 * (i - 1) + j] = GetM(m, i, j), m)
  /\ Check("translations", Loose(E.res[o + 1], Has(z, 1..3), Has(m, 1..3)), m)
  /\ Check("rotations", Loose(E.res[o + 2], Has(z, 4..6), Has(m, 4..6)), m)
  /\ Check("diagonal", E.res[o + 3] = B(IsDiag(m)), m)
  /\ Check("symmetric", E.res[o + 4] = B(IsSym(m)), m)
  /\ Check("empty", Loose(E.res[o + 5], DOMAIN m.st = {}, DOMAIN z.st = {}), m)
  /\ Check("zero", E.res[o + 6] = B(NonZero(m) = {}), m)
  /\ Check("equal", E.res[o + 7] = B(SameM(m, b)) /\ E.res[o + 8] = B(SameM(m, b)), <<m, b>>)
  /\ Check("vectors", Len(E.res) = o6 + N * N /\ Vec(o1, Diagonal(m, n)) /\ Vec(o2, Diagonal(m, N)) /\ Vec(o3, Upper(m, n)) /\ Vec(o4, Upper(m, N)) /\ Vec(o5, Columns(m, n)) /\ Vec(o6, Columns(m, N)), m)
CQ(x, y) ==
  /\ Check("coefficients", \A d \in Dof : E.res[2 * d - 1] = x[d] /\ E.res[2 * d] = x[d], x)
  /\ Check("coefficient-dofs", E.res[13] = Mask(DofsC(x)) /\ E.res[14] = B(DofsC(x) = {}), x)
  /\ Check("coefficient-order", E.res[15] = B(x = y) /\ E.res[16] + E.res[17] = B(x # y), <<x, y>>)
Op ==
  /\ E.ev = "op" /\ UNCHANGED cname
  /\ CASE E.o = "pairs" -> Check("pairs", PairsOk, "union, difference, intersection, containment") /\ UNCHANGED <<S, M, C>>
       [] E.o = "singles" -> Check("singles", SinglesOk, "count, code, iteration, membership") /\ UNCHANGED <<S, M, C>>
       [] E.o = "code" -> IF ValidCode(A(2)) THEN SetOp(A(1), Digits(A(2))) ELSE Check("code", E.res = <<-1>>, "rejected") /\ UNCHANGED <<S, M, C>>
       [] E.o = "bool" -> SetOp(A(1), SetOf(A(2)))
       [] E.o = "add" -> SetOp(A(1), S[A(2)] \cup S[A(3)])
       [] E.o = "sub" -> SetOp(A(1), S[A(2)] \ S[A(3)])
       [] E.o = "and" -> SetOp(A(1), S[A(2)] \cap S[A(3)])
       [] E.o = "plus" -> SetOp(A(1), S[A(1)] \cup S[A(2)])
       [] E.o = "addd" -> SetOp(A(1), S[A(1)] \cup {A(2)})
       [] E.o = "subd" -> SetOp(A(1), S[A(1)] \ {A(2)})
       [] E.o = "assign" -> SetOp(A(1), {A(2)})
       [] E.o = "mnew" -> M' = [M EXCEPT ![A(1)] = NewM(A(2))] /\ UNCHANGED <<S, C>>
       [] E.o = "madd" -> /\ M' = [M EXCEPT ![A(1)] = AddM(@, A(2), A(3), A(4))] /\ UNCHANGED <<S, C>>
                          /\ Check("refused", E.res = <<B(Throws(M[A(1)], A(2), A(3), A(4)))>>, M[A(1)])
       [] E.o = "mzero" -> M' = [M EXCEPT ![A(1)] = ZeroM(@)] /\ UNCHANGED <<S, C>>
       [] E.o = "mtr" -> M' = [M EXCEPT ![A(1)] = TrM(M[A(2)])] /\ UNCHANGED <<S, C>>
       [] E.o = "mq" -> MQ(M[A(1)], M[A(2)]) /\ UNCHANGED <<S, M, C>>
       [] E.o = "cnew" -> C' = [C EXCEPT ![A(1)] = NewC(SetOf(A(2)), A(3))] /\ UNCHANGED <<S, M>>
       [] E.o = "cdof" -> C' = [C EXCEPT ![A(1)] = NewC({A(2)}, A(3))] /\ UNCHANGED <<S, M>>
       [] E.o = "cset" -> C' = [C EXCEPT ![A(1)] = SetC(@, A(2), A(3))] /\ UNCHANGED <<S, M>>
       [] E.o = "cadd" -> C' = [C EXCEPT ![A(1)] = AddC(@, C[A(2)])] /\ UNCHANGED <<S, M>>
       [] E.o = "cmul" -> C' = [C EXCEPT ![A(1)] = MulC(@, A(2))] /\ UNCHANGED <<S, M>>
       [] E.o = "cq" -> CQ(C[A(1)], C[A(2)]) /\ UNCHANGED <<S, M, C>>
Prob == E.ev = "obs" /\ UNCHANGED <<S, M, C, cname>> /\ Rej("problem", E.what)
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Op \/ Prob)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
