------------------------------ MODULE G_Faces ------------------------------
(* Random solid elements and questions about their faces. *)
EXTENDS Faces, Json, Randomization, SequencesExt
VARIABLES hist, pc
R(S) == RandomElement(S)
Perm(k) == LET f == R({0}) IN SortSeq([i \in 1..k |-> i], LAMBDA a, b : a < b)
Ids(k) == SetToSeq(RandomSubset(k, 1..9000))
(* SetToSeq is ordered; a random rotation, step and reversal mix it *)
Mix(q) == LET L == Len(q) o == R(0..(L - 1)) r == R({TRUE, FALSE})
              st == R({x \in 1..(L - 1) : \A f \in 2..L : ~(L % f = 0 /\ x % f = 0)}) IN
          [i \in 1..L |-> LET j == ((i * st + o) % L) + 1 IN IF r THEN q[L + 1 - j] ELSE q[j]]
Init == hist = <<>> /\ pc = 0
New == /\ pc = 0 /\ pc' = 1
       /\ \E s \in {R(Shapes)} : \E q \in {R({TRUE, FALSE})} :
          hist' = Append(hist, [ev |-> "elem", shape |-> s, n |-> Mix(Ids(NCorner(s) + (IF q THEN NSide(s) ELSE 0)))])
Elem == hist[1]
Ask == /\ pc \in 1..12 /\ pc' = pc + 1
       /\ \E a \in {R(1..NCorner(Elem.shape))} : \E b \in {R((0..NCorner(Elem.shape)) \ {a})} :
          hist' = Append(hist, [ev |-> "ask", a |-> a, b |-> IF b = 0 /\ Elem.shape # "PENTA" THEN (IF a = 1 THEN 2 ELSE 1) ELSE b])
Done == pc = 13 /\ pc' = 14 /\ UNCHANGED hist /\ PrintT("@@" \o ToJson(hist))
Next == New \/ Ask \/ Done
Spec == Init /\ [][Next]_<<hist, pc>>
=============================================================================
