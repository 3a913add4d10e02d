------------------------------- MODULE NasOut -------------------------------
(* How a model in memory becomes a Nastran deck. In memory an analysis refers *)
(* to any number of constraint sets, some constraints hold in every analysis   *)
(* and entities that the input did not number have only a position. In a deck  *)
(* a subcase selects one set of each kind, nothing but rigid elements holds    *)
(* without a selection, and everything has a number.                           *)
(*   sets: sequence of [orig, kind, items]; orig = 0 when the set has no number *)
(*   perm: set of <<kind, item>> that hold in every analysis                    *)
(*   ans:  sequence of [spc, mpc], positions in sets, 0 for none                *)
EXTENDS Integers, Sequences, FiniteSets
Kinds == {"spc", "mpc"}
Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
LastOrig(M) == Max({M.sets[i].orig : i \in DOMAIN M.sets} \cup {0})
(* a number that no other entity has *)
Number(M, i) == IF M.sets[i].orig # 0 THEN M.sets[i].orig ELSE LastOrig(M) + i
PermNumber(M) == Max({Number(M, i) : i \in DOMAIN M.sets} \cup {0}) + 1
(* what the model says about analysis a *)
Holds(M, a) == {<<k, x>> \in Kinds \X UNION ({M.sets[i].items : i \in DOMAIN M.sets} \cup {{p[2] : p \in M.perm}}) :
                  <<k, x>> \in M.perm \/ \E i \in DOMAIN M.sets : i = M.ans[a][k] /\ M.sets[i].kind = k /\ x \in M.sets[i].items}
(* the deck: cards <<kind, number, item>>, and the selection of each subcase *)
CardsOf(M, i) == {<<M.sets[i].kind, Number(M, i), x>> : x \in M.sets[i].items}
PermCards(M) == {<<p[1], n, p[2]>> : p \in M.perm, n \in {PermNumber(M)} \cup {Number(M, i) : i \in DOMAIN M.sets}}
                \cap ({<<p[1], PermNumber(M), p[2]>> : p \in M.perm} \cup UNION {{<<p[1], Number(M, i), p[2]>> : p \in {q \in M.perm : q[1] = M.sets[i].kind}} : i \in DOMAIN M.sets})
CaseOf(M, a) == [k \in Kinds |-> IF M.ans[a][k] # 0 THEN Number(M, M.ans[a][k]) ELSE IF \E p \in M.perm : p[1] = k THEN PermNumber(M) ELSE 0]
(* reading the deck again *)
Read(cards, case) == {<<c[1], c[3]>> : c \in {d \in cards : d[2] = case[d[1]]}}
=============================================================================
