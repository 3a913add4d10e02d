------------------------------- MODULE G_Dofs -------------------------------
(* Random histories of operations on the three structures.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Len0
VARIABLES h
R(S) == RandomElement(S)
Dice(x) == R(1..x)
Op(o, args) == [ev |-> "op", o |-> o, a |-> args]
Mask(x) == R(0..63)
CodeDigits(x) == LET k == Dice(4) IN [i \in 1..k |-> IF Dice(25) = 1 THEN R({0, 7, 8, 9}) ELSE Dice(6)]
RECURSIVE Num(_)
Num(q) == IF q = <<>> THEN 0 ELSE 10 * Num(SubSeq(q, 1, Len(q) - 1)) + q[Len(q)]
Code(x) == LET c == Num(CodeDigits(x)) IN IF c = 0 THEN 1 ELSE c
V(x) == R({-3, -1, 0, 0, 2, 5})
(* half of the matrix entries go to translations only *)
D(x) == IF Dice(2) = 1 THEN Dice(3) ELSE Dice(6)
Pick(k) ==
  CASE k = 1 -> Op("code", <<R(1..3), Code(k)>>) [] k = 2 -> Op("bool", <<R(1..3), Mask(k)>>)
    [] k = 3 -> Op(R({"add", "sub", "and"}), <<R(1..3), R(1..3), R(1..3)>>) [] k = 4 -> Op("plus", <<R(1..3), R(1..3)>>)
    [] k = 5 -> Op(R({"addd", "subd", "assign"}), <<R(1..3), Dice(6)>>)
    [] k \in 6..7 -> Op("mnew", <<R(1..2), R(0..2)>>)
    [] k \in 8..14 -> LET d == D(k) e == IF Dice(3) = 1 THEN d ELSE D(k + 1) IN Op("madd", <<R(1..2), d, e, V(k)>>)
    [] k = 15 -> IF Dice(3) = 1 THEN Op("mzero", <<R(1..2)>>) ELSE Op("mtr", <<R(1..2), R(1..2)>>)
    [] k \in 16..18 -> Op("mq", IF Dice(2) = 1 THEN <<1, 2>> ELSE <<2, 1>>)
    [] k = 19 -> Op("cnew", <<R(1..2), Mask(k), V(k)>>) [] k = 20 -> Op("cdof", <<R(1..2), Dice(6), V(k)>>)
    [] k = 21 -> Op("cset", <<R(1..2), Dice(6), V(k)>>) [] k = 22 -> Op("cadd", <<R(1..2), R(1..2)>>)
    [] k = 23 -> Op("cmul", <<R(1..2), R({-2, 0, 1, 3})>>)
    [] OTHER -> Op("cq", <<R(1..2), R(1..2)>>)
Init == h = <<>>
Do == Len(h) < Len0 /\ \E k \in {Dice(25)} : h' = Append(h, Pick(k))
Finish == Len(h) = Len0 /\ h' = Append(h, Op("mq", <<1, 2>>)) /\ PrintT("@@" \o ToJson(h'))
Spec == Init /\ [][Do \/ Finish]_h
=============================================================================
