-------------------------------- MODULE Dofs --------------------------------
(* Degree of freedom sets, matrices between degrees of freedom and vectors of *)
(* coefficients.  Degrees of freedom are 1..6; sets travel as masks.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N                       \* 6; smaller when the laws are explored
Dof == 1..N
Bit(m, d) == (m \div (2 ^ (d - 1))) % 2
SetOf(m) == {d \in Dof : Bit(m, d) = 1}
RECURSIVE SumBits(_)
SumBits(S) == IF S = {} THEN 0 ELSE LET d == CHOOSE x \in S : TRUE IN 2 ^ (d - 1) + SumBits(S \ {d})
Mask(S) == SumBits(S)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<MinOf(S)>> \o Sorted(S \ {MinOf(S)})
RECURSIVE CodeOf(_)
CodeOf(q) == IF q = <<>> THEN 0 ELSE 10 * CodeOf(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)]
RECURSIVE Digits(_)
Digits(c) == IF c = 0 THEN {} ELSE {c % 10} \cup Digits(c \div 10)

(* matrices: t in 0..2 = full, symmetric, diagonal; st = what has been stored, by pair *)
NewM(t) == [t |-> t, st |-> <<>>]
Key(m, i, j) == IF m.t = 1 /\ i > j THEN <<j, i>> ELSE <<i, j>>
Throws(m, i, j, v) == m.t = 2 /\ i # j /\ v # 0
Store(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
AddM(m, i, j, v) == IF Throws(m, i, j, v) THEN m ELSE [m EXCEPT !.st = Store(@, Key(m, i, j), v)]
GetM(m, i, j) == IF Key(m, i, j) \in DOMAIN m.st THEN m.st[Key(m, i, j)] ELSE 0
ZeroM(m) == [m EXCEPT !.st = [x \in DOMAIN @ |-> 0]]
TrM(m) == [t |-> m.t, st |-> [x \in {Key(m, k[2], k[1]) : k \in DOMAIN m.st} |-> IF m.t = 1 THEN m.st[x] ELSE m.st[<<x[2], x[1]>>]]]
NonZero(m) == {k \in Dof \X Dof : GetM(m, k[1], k[2]) # 0}
IsDiag(m) == \A k \in NonZero(m) : k[1] = k[2]
IsSym(m) == \A i, j \in Dof : GetM(m, i, j) = GetM(m, j, i)
SameM(a, b) == \A i, j \in Dof : GetM(a, i, j) = GetM(b, i, j)
H == N \div 2
Has(m, S) == \E k \in DOMAIN m.st : k[1] \in S \/ k[2] \in S
Size(m, r) == IF r THEN N ELSE H
Diagonal(m, n) == [i \in 1..n |-> GetM(m, i, i)]
Columns(m, n) == [x \in 1..(n * n) |-> GetM(m, ((x - 1) % n) + 1, ((x - 1) \div n) + 1)]
RECURSIVE Upper(_, _)
Upper(m, n) == IF n = 0 THEN <<>> ELSE Upper(m, n - 1) \o [i \in 1..n |-> GetM(m, i, n)]

(* coefficient vectors; Absent marks a component that has no coefficient *)
Absent == 999999
ZeroC == [d \in Dof |-> 0]
NewC(S, v) == [d \in Dof |-> IF d \in S THEN v ELSE Absent]
AddC(a, b) == [d \in Dof |-> IF b[d] = Absent THEN a[d] ELSE IF a[d] = Absent THEN b[d] ELSE a[d] + b[d]]
MulC(a, f) == [d \in Dof |-> IF a[d] = Absent THEN Absent ELSE a[d] * f]
SetC(a, d, v) == [a EXCEPT ![d] = v]
DofsC(a) == {d \in Dof : a[d] # Absent}
=============================================================================
