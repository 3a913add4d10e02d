------------------------------ MODULE NonLin ------------------------------
(* Nonlinear statics: the subcases of a deck are one history.  Analysis i    *)
(* runs over the pseudo time [i-1, i] from the state analysis i-1 ended in,  *)
(* in the increments of the NLPARM card it selects; over it the loads of the *)
(* subcase before it fade from their values to nothing while its own grow    *)
(* from nothing to theirs, both linearly.  Time is counted in quarters of an *)
(* analysis (tau in 0..4) and amounts in sixteenths (Deck's quarters, four   *)
(* quarters of time).                                                        *)
EXTENDS Deck

NinC(d, i) == LET sid == Pick(IF d.subs = <<>> THEN 0 ELSE d.nls[i], d.nlg)
                  S == {p \in d.nlp : p[1] = sid}
              IN IF S = {} THEN -1 ELSE (CHOOSE p \in S : TRUE)[2]
(* what fades and what grows, at time tau of an analysis *)
Blend(X, Y, tau) == Totals({<<kv[1], "fades", kv[2] * (4 - tau)>> : kv \in X} \cup {<<kv[1], "grows", kv[2] * tau>> : kv \in Y})
ForceAt(d, i, tau) == Blend(IF i = 1 THEN {} ELSE ExpNodal(d, i - 1), ExpNodal(d, i), tau)
GravAt(d, i, tau) == Blend(IF i = 1 THEN {} ELSE ExpGrav(d, i - 1), ExpGrav(d, i), tau)
=============================================================================
