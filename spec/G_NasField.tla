----------------------------- MODULE G_NasField -----------------------------
(* Random numbers: digits, sign, size.                                         *)
EXTENDS NasField, TLC, Json
VARIABLES n, k
vars == <<n, k>>
R(S) == RandomElement(S)
RECURSIVE Ds(_, _)
Ds(i, nines) == IF i = 0 THEN <<>> ELSE Append(Ds(i - 1, nines), IF nines THEN R({0, 9, 9, 9, 4, 5}) ELSE R(0..9))
OneVal(x) == LET ds == <<R(1..9)>> \o Ds(R(0..6), R(1..3) = 1) v == Normal(R({-1, 1}), ds, 0)
             IN [ev |-> "val", s |-> v.s, m |-> v.m, e |-> R(-9..12) - Len(v.m) + 1]
Init == n = 0 /\ k = R(1..2)
Emit == /\ n = 0 /\ n' = 1 /\ UNCHANGED k
        /\ PrintT("@@" \o ToJson([i \in 1..16 |-> OneVal(k + i)]))
Spec == Init /\ [][Emit]_vars
=============================================================================
