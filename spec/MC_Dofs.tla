------------------------------- MODULE MC_Dofs -------------------------------
(* The two representations the code could use, side by side: sets as bit       *)
(* masks against sets, a matrix as a store of pairs against a full table.      *)
(* Norm = FALSE forgets that a symmetric matrix has one entry per pair;        *)
(* Xor = TRUE takes difference for exclusive or.                               *)
EXTENDS Dofs, TLC
CONSTANTS Vals, Depth, Norm, Xor
VARIABLES a, b, ma, mb, m, tab, n
vars == <<a, b, ma, mb, m, tab, n>>
Full == 2 ^ N - 1
And(x, y) == Mask(SetOf(x) \cap SetOf(y))
Not(x) == Full - x
Or(x, y) == x + y - And(x, y)
Minus(x, y) == IF Xor THEN Or(And(x, Not(y)), And(y, Not(x))) ELSE And(x, Not(y))
Init == /\ a = {} /\ b = {} /\ ma = 0 /\ mb = 0 /\ n = 0
        /\ \E t \in 0..2 : m = NewM(t)
        /\ tab = [k \in Dof \X Dof |-> 0]
SetD == \E d \in Dof : /\ n < 2 * N /\ a' = a \cup {d} /\ ma' = Or(ma, 2 ^ (d - 1)) /\ UNCHANGED <<b, mb, m, tab, n>>
Swap == a' = b /\ b' = a /\ ma' = mb /\ mb' = ma /\ UNCHANGED <<m, tab, n>>
Sub == a' = a \ b /\ ma' = Minus(ma, mb) /\ UNCHANGED <<b, mb, m, tab, n>>
Join == a' = a \cup b /\ ma' = Or(ma, mb) /\ UNCHANGED <<b, mb, m, tab, n>>
Put(i, j, v) == IF Norm \/ Throws(m, i, j, v) THEN AddM(m, i, j, v) ELSE [m EXCEPT !.st = Store(@, <<i, j>>, v)]
Add == /\ n < Depth /\ n' = n + 1
       /\ \E i, j \in Dof, v \in Vals :
            /\ m' = Put(i, j, v)
            /\ tab' = [k \in Dof \X Dof |-> IF Throws(m, i, j, v) THEN tab[k] ELSE IF k = <<i, j>> \/ (m.t = 1 /\ k = <<j, i>>) THEN v ELSE tab[k]]
       /\ UNCHANGED <<a, b, ma, mb>>
Transpose == /\ n > 0 /\ n < Depth /\ n' = n + 1 /\ m' = TrM(m) /\ tab' = [k \in Dof \X Dof |-> tab[<<k[2], k[1]>>]] /\ UNCHANGED <<a, b, ma, mb>>
Next == SetD \/ Swap \/ Sub \/ Join \/ Add \/ Transpose
Spec == Init /\ [][Next]_vars
SetsAgree == SetOf(ma) = a /\ SetOf(mb) = b /\ Mask(a) = ma /\ Digits(CodeOf(Sorted(a))) = a
TableAgrees == \A i, j \in Dof : GetM(m, i, j) = tab[<<i, j>>]
Typed == (m.t = 1 => IsSym(m)) /\ (m.t = 2 => IsDiag(m) /\ IsSym(m))
Consistent == /\ NonZero(m) # {} => DOMAIN m.st # {}
              /\ SameM(m, TrM(TrM(m))) /\ (IsSym(m) <=> SameM(m, TrM(m)))
=============================================================================
