----------------------------- MODULE MC_NasOut -----------------------------
(* Every small model written to a deck and read again; wrong writers differ.  *)
EXTENDS NasOut
CONSTANT Variant, MaxSets, MaxAns, Items
VARIABLES M, cards, cases, pc, i
vars == <<M, cards, cases, pc, i>>
Origs == {0, 1, 2, 3}
Init == M = [sets |-> <<>>, perm |-> {}, ans |-> <<>>] /\ cards = {} /\ cases = <<>> /\ pc = "make" /\ i = 1
AddSet == /\ pc = "make" /\ M.ans = <<>> /\ M.perm = {} /\ Len(M.sets) < MaxSets
          /\ \E o \in Origs, k \in Kinds, S \in SUBSET Items :
               /\ S # {} /\ \A j \in DOMAIN M.sets : o = 0 \/ M.sets[j].orig # o
               /\ M' = [M EXCEPT !.sets = Append(@, [orig |-> o, kind |-> k, items |-> S])]
          /\ UNCHANGED <<cards, cases, pc, i>>
AddPerm == /\ pc = "make" /\ M.ans = <<>>
           /\ \E k \in Kinds, x \in Items : <<k, x>> \notin M.perm /\ M' = [M EXCEPT !.perm = @ \cup {<<k, x>>}]
           /\ UNCHANGED <<cards, cases, pc, i>>
Of(k) == {0} \cup {j \in DOMAIN M.sets : M.sets[j].kind = k}
AddAn == /\ pc = "make" /\ Len(M.ans) < MaxAns
         /\ \E s \in Of("spc"), m \in Of("mpc") : M' = [M EXCEPT !.ans = Append(@, [spc |-> s, mpc |-> m])]
         /\ UNCHANGED <<cards, cases, pc, i>>
Begin == pc = "make" /\ M.ans # <<>> /\ pc' = "sets" /\ UNCHANGED <<M, cards, cases, i>>
Num(j) == IF Variant = "internal" /\ M.sets[j].orig = 0 THEN j ELSE Number(M, j)
WriteSet == /\ pc = "sets" /\ i <= Len(M.sets)
            /\ cards' = cards \cup {<<M.sets[i].kind, Num(i), x>> : x \in M.sets[i].items}
            /\ i' = i + 1 /\ UNCHANGED <<M, cases, pc>>
WritePerm == /\ pc = "sets" /\ i > Len(M.sets) /\ pc' = "cases" /\ i' = 1
             /\ cards' = cards \cup (CASE Variant = "lost" -> {}
                                       [] Variant = "once" -> {<<p[1], PermNumber(M), p[2]>> : p \in M.perm}
                                       [] OTHER -> PermCards(M))
             /\ UNCHANGED <<M, cases>>
WriteCase == /\ pc = "cases" /\ i <= Len(M.ans) /\ i' = i + 1
             /\ cases' = Append(cases, [k \in Kinds |-> IF M.ans[i][k] # 0 THEN Num(M.ans[i][k])
                                                       ELSE IF Variant # "unselected" /\ \E p \in M.perm : p[1] = k THEN PermNumber(M) ELSE 0])
             /\ UNCHANGED <<M, cards, pc>>
Done == pc = "cases" /\ i > Len(M.ans) /\ pc' = "done" /\ UNCHANGED <<M, cards, cases, i>>
Next == AddSet \/ AddPerm \/ AddAn \/ Begin \/ WriteSet \/ WritePerm \/ WriteCase \/ Done
Spec == Init /\ [][Next]_vars
SameModel == pc = "done" => \A a \in DOMAIN M.ans : Read(cards, cases[a]) = Holds(M, a)
Distinct == \A j, k \in DOMAIN M.sets : Number(M, j) = Number(M, k) => j = k
AsSpecified == pc = "done" /\ Variant = "none" => cards = PermCards(M) \cup UNION {CardsOf(M, j) : j \in DOMAIN M.sets} /\ \A a \in DOMAIN M.ans : cases[a] = CaseOf(M, a)
=============================================================================
