----------------------------- MODULE NasField -----------------------------
(* A real number in a field of W characters: optional sign, first digit,      *)
(* point, decimals, sign of the power of ten, power of ten. Values are those  *)
(* of Numbers: [s, m, e].                                                      *)
EXTENDS Numbers
Abs(x) == IF x < 0 THEN -x ELSE x
Pow(v) == v.e + Len(v.m) - 1                       \* power of ten of the first digit
ExpLen(x) == IF Abs(x) < 10 THEN 1 ELSE 2
(* the digits that there is room for *)
Keep(v, W) == W - 2 - ExpLen(Pow(v)) - (IF v.s < 0 THEN 1 ELSE 0)
RECURSIVE P10(_)
P10(n) == IF n <= 0 THEN 1 ELSE 10 * P10(n - 1)
First(m, n) == SubSeq(m, 1, IF n < 0 THEN 0 ELSE IF n > Len(m) THEN Len(m) ELSE n)
(* in units of 10^b, cut to an integer *)
Units(v, b) == IF v.e >= b THEN Num(v.m) * P10(v.e - b) ELSE Num(First(v.m, Len(v.m) - (b - v.e)))
(* g is v up to half a unit of the k-th digit (v has at most seven digits) *)
Near(g, v, k) ==
  IF v.m = <<>> THEN g.m = <<>>
  ELSE /\ g.m # <<>> /\ g.s = v.s /\ Abs(Pow(g) - Pow(v)) <= 1
       /\ LET b == Pow(v) - 7 IN Abs(Units(g, b) - Units(v, b)) <= (IF k > 7 THEN 1 ELSE 5 * P10(7 - k) + 1)
(* a mantissa of k digits: its integer part (10 when the rounding carries over) and its decimals *)
Rounded(m, k) == LET d == First(m, k) pad == d \o [i \in 1..(k - Len(d)) |-> 0]
                 IN Num(pad) + (IF Len(m) > k /\ m[k + 1] >= 5 THEN 1 ELSE 0)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
===========================================================================
