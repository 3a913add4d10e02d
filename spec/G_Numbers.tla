----------------------------- MODULE G_Numbers -----------------------------
(* Random spellings of reals and random integer lists.                        *)
EXTENDS Numbers, TLC, Json
VARIABLES n, k
vars == <<n, k>>
R(S) == RandomElement(S)
Dice(x) == R(1..x)
Ds(x, m) == [i \in 1..R(0..m) |-> R(0..9)]
Parts(x) == [sign |-> R({"", "", "+", "-"}), ip |-> Ds(x, R({1, 2, 4})), fp |-> Ds(x, R({1, 3, 6})), mk |-> R({"", "", "E", "e", "D", "d", "bare", "bare"}), es |-> R({"", "+", "-"}), ed |-> [i \in 1..R({1, 1, 2, 2}) |-> R(0..9)]]
Fix(r) == LET a == IF r.mk = "" THEN [r EXCEPT !.es = "", !.ed = <<>>] ELSE IF r.mk = "bare" /\ r.es = "" THEN [r EXCEPT !.es = "+"] ELSE r
          IN IF a.ip \o a.fp = <<>> THEN [a EXCEPT !.fp = <<R(0..9)>>] ELSE a
Real(x) == LET r == Fix(Parts(x)) IN [ev |-> "real", chars |-> Spell(r)]
Blank == [ev |-> "real", chars |-> <<>>]
Item(x) == LET a == R(1..60) b == a + Dice(12) IN CASE x = 1 -> [k |-> "one", a |-> a, b |-> a, s |-> 1] [] x = 2 -> [k |-> "thru", a |-> a, b |-> b, s |-> 1] [] x = 3 -> [k |-> "by", a |-> a, b |-> b, s |-> Dice(5)]
List(x) == LET is == [i \in 1..R({1, 2, 3, 5}) |-> Item(R({1, 1, 2, 3}))] IN [ev |-> "ints", toks |-> Toks(is)]
Case(x) == <<[i \in 1..R(1..7) |-> IF Dice(10) = 1 THEN Blank ELSE Real(x + i)], List(x)>>
Init == n = 0 /\ k = R(1..2)
Emit == /\ n = 0 /\ n' = 1 /\ UNCHANGED k
        /\ LET c == Case(k) IN PrintT("@@" \o ToJson(Append(c[1], c[2])))
Spec == Init /\ [][Emit]_vars
=============================================================================
