-------------------------- MODULE MC_LocalFrames --------------------------
(* A change of frame changes no physics: a force does the same work on every  *)
(* displacement, and a constraint row holds for exactly the displacements     *)
(* whose local component has the prescribed value.                            *)
EXTENDS Axes
CONSTANT Variant
VARIABLES fs, pt, load, rw, du
vars == <<fs, pt, load, rw, du>>
Dirs == {<<1,0,0>>, <<0,-1,0>>, <<0,0,1>>, <<3,4,0>>, <<0,-4,3>>}
As == {<<0,0,0>>, <<1,-2,3>>}
Init == fs = <<>> /\ pt = <<>> /\ load = <<>> /\ rw = NoRow /\ du = <<>>
(* a frame in the global one, or in another one *)
Define == /\ fs = <<>> /\ \E a \in As, v \in Dirs, w \in Dirs, t \in {"R", "C"}, two \in {TRUE, FALSE}, p \in {<<4,1,3>>, <<1,2,3>>} :
               LET b == VAdd(a, v) c == VAdd(a, w) IN
               /\ Definable(a, b, c)
               /\ LET f == FrameOn(IF two THEN "R" ELSE t, GlobalFrame, a, b, c)
                      q == IF two THEN <<f, FrameOn(t, f, <<1,0,0>>, <<1,0,1>>, <<4,4,0>>)>> ELSE <<f>> IN
                  /\ AxesOf(q[Len(q)], [v |-> p, d |-> 1]).d \in {1, 5, 25}
                  /\ fs' = q /\ pt' = p
          /\ UNCHANGED <<load, rw, du>>
A == AxesOf(fs[Len(fs)], [v |-> pt, d |-> 1])
Used == CASE Variant = "transpose" -> [A EXCEPT !.e = [i \in 1..3 |-> [j \in 1..3 |-> A.e[j][i]]]]
          [] Variant = "parent" -> AxesOf(fs[1], [v |-> pt, d |-> 1])
          [] OTHER -> A
Push == /\ fs # <<>> /\ load = <<>> /\ rw.t = {} /\ \E n \in {<<1,0,0>>, <<0,2,0>>, <<1,-1,2>>} : load' = n /\ UNCHANGED <<fs, pt, rw, du>>
Block == /\ fs # <<>> /\ load = <<>> /\ rw.t = {} /\ du = <<>> /\ \E c \in 1..3, v \in {0, 3} :
              rw' = RowOf(Used, 1, c, v) @@ [c |-> c, v |-> v] /\ UNCHANGED <<fs, pt, load, du>>
Move == /\ du = <<>> /\ (load # <<>> \/ rw.t # {}) /\ \E w \in {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<3,1,-2>>} : du' = w /\ UNCHANGED <<fs, pt, load, rw>>
Next == Define \/ Push \/ Block \/ Move
Spec == Init /\ [][Next]_vars
(* u is a displacement with local components u; its global components are over A.d *)
UG == Comb(A, du)
Work == load # <<>> /\ du # <<>> => Dot(Comb(Used, load), UG) = Dot(load, du) * Used.d * A.d
Coef(j) == SumI(LET q == {x \in rw.t : x[2] = j} IN IF q = {} THEN <<>> ELSE <<(CHOOSE x \in q : TRUE)[3]>>)
Holds == rw.t # {} /\ du # <<>> =>
           LET lhs == Coef(1) * UG[1] + Coef(2) * UG[2] + Coef(3) * UG[3] IN ((lhs * K = rw.r * A.d) <=> (du[rw.c] = rw.v))
=============================================================================
