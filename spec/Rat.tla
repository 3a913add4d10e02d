-------------------------------- MODULE Rat --------------------------------
(* Rationals <<num, den>> in lowest terms with a positive denominator; <<>>  *)
(* is a blank.                                                               *)
EXTENDS Integers, Sequences
LOCAL AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN AbsI(a) ELSE GcdI(b, a % b)
Q(n, d) == LET g == GcdI(AbsI(n), AbsI(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), s * (d \div g)>>
I(n) == <<n, 1>>
RAdd(a, b) == LET g == GcdI(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == GcdI(AbsI(a[1]), b[2]) h == GcdI(AbsI(b[1]), a[2]) G1(x) == IF x = 0 THEN 1 ELSE x IN
              Q((a[1] \div G1(g)) * (b[1] \div G1(h)), (a[2] \div G1(h)) * (b[2] \div G1(g)))
RInv(a) == Q(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RCube(a) == RMul(a, RMul(a, a))
Blank == <<>>
IsBlank(a) == Len(a) = 0
Dflt(a, v) == IF IsBlank(a) THEN v ELSE a
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(Head(s), RSum(Tail(s)))
=============================================================================
