----------------------------- MODULE MC_NonLin -----------------------------
(* The writer as a machine: one analysis after the other, each with a list   *)
(* of excitations (a load set and a ramp), a first instant and a state to    *)
(* start from.  Every program of at most MaxAn subcases over the load sets   *)
(* of Val is explored; what is applied has to be a continuous history that   *)
(* meets every subcase at its end.  Wrong: the preceding loads are dropped   *)
(* ("drop"), the loads of all the subcases before fade ("all"), every        *)
(* analysis starts again at time zero ("restart"), or from rest ("rest").    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxAn, Wrong
VARIABLES prog, i, tau, exc, t0, from, last
vars == <<prog, i, tau, exc, t0, from, last>>
Val == <<<<1, 0>>, <<2, -3>>, <<0, 5>>>>       \* the amounts of each load set on two components
Sets == SUBSET (1..Len(Val))
RECURSIVE SumSet(_, _)
SumSet(S, q) == IF S = {} THEN 0 ELSE LET c == CHOOSE x \in S : TRUE IN Val[c][q] + SumSet(S \ {c}, q)
Of(S) == [q \in 1..2 |-> SumSet(S, q)]
Grown(e, t) == IF e[3] = "up" THEN t ELSE 4 - t
RECURSIVE Apply(_, _, _)
Apply(E, t, q) == IF E = {} THEN 0 ELSE LET e == CHOOSE x \in E : TRUE IN Val[e[1]][q] * Grown(e, t) + Apply(E \ {e}, t, q)
Applied == [q \in 1..2 |-> Apply(exc, tau, q)]
Faded == CASE Wrong = "drop" \/ prog = <<>> -> {}
           [] Wrong = "all" -> {<<c, k, "down">> : c \in 1..Len(Val), k \in DOMAIN prog} \cap UNION {{<<c, k, "down">> : c \in prog[k]} : k \in DOMAIN prog}
           [] OTHER -> {<<c, Len(prog), "down">> : c \in prog[Len(prog)]}
Init == prog = <<>> /\ i = 0 /\ tau = 4 /\ exc = {} /\ t0 = -1 /\ from = -1 /\ last = <<0, 0>>
Open == /\ tau = 4 /\ i < MaxAn
        /\ \E S \in Sets :
             /\ prog' = Append(prog, S) /\ i' = i + 1 /\ tau' = 0
             /\ exc' = Faded \cup {<<c, i + 1, "up">> : c \in S}
             /\ t0' = (IF Wrong = "restart" THEN 0 ELSE i) /\ from' = (IF Wrong = "rest" THEN 0 ELSE i)
             /\ last' = Applied
Step == /\ i > 0 /\ tau < 4 /\ tau' = tau + 1 /\ UNCHANGED <<prog, i, exc, t0, from, last>>
Next == Open \/ Step
Spec == Init /\ [][Next]_vars
Scale(n, v) == [q \in 1..2 |-> n * v[q]]
Continuous == i > 0 /\ tau = 0 => Applied = last
Meets == i > 0 /\ tau = 4 => Applied = Scale(4, Of(prog[i]))
Linear == i > 0 => LET p == IF i = 1 THEN {} ELSE prog[i - 1] IN
                   Applied = [q \in 1..2 |-> (4 - tau) * Of(p)[q] + tau * Of(prog[i])[q]]
Chained == i > 0 => t0 = i - 1 /\ from = i - 1
=============================================================================
