----------------------------- MODULE G_Discrete -----------------------------
(* Random decks of springs, dampers, masses, bushes and direct matrices. *)
EXTENDS Discrete, Json, Randomization, SequencesExt
VARIABLES hist, pc, cfg
vars == <<hist, pc, cfg>>
R(S) == RandomElement(S)
Card(k) == [ev |-> "card", k |-> k]
Init == hist = <<>> /\ pc = "start" /\ cfg = [n |-> 0]
Elements == {"CELAS1", "CELAS2", "CDAMP1", "CMASS2", "CBUSH", "CONM1", "CONM2", "CBAR", "CROD"}
Start == /\ pc = "start" /\ pc' = "add" /\ UNCHANGED hist
         /\ \E n \in {R({1, 2, 4, 6, 9})} : \E ng \in {R(2..5)} : \E mul \in {R({1, 7, 100})} : \E kinds \in {R(SUBSET Elements)} : \E dm \in {R({0, 0, 1, 2, 5})} :
              cfg' = [n |-> n, ng |-> ng, mul |-> mul, kinds |-> IF kinds = {} /\ dm = 0 THEN Elements ELSE kinds, dm |-> dm]
Gid == {g * cfg.mul : g \in 1..cfg.ng}
Els == {i \in DOMAIN hist : hist[i].k \in Elements}
Ids(S) == {hist[i].id : i \in {i \in DOMAIN hist : hist[i].k \in S}}
Props == {"PELAS", "PDAMP", "PBUSH"}
Val == {1, 2, 3, 5, 10, 250, -4}
Two(f(_, _, _, _)) == \E g1 \in {R(Gid)} : \E g2 \in {R(Gid \cup {0})} : \E c1 \in {R(1..6)} : \E same \in {R({TRUE, TRUE, FALSE})} : \E c2 \in {IF same THEN c1 ELSE R(1..6)} :
          IF <<g1, c1>> = <<g2, c2>> THEN UNCHANGED hist ELSE f(g1, c1, g2, c2)
\* the property of an element: one of those there are, or a new one
Pid(k) == R(Ids({k}) \cup {R((1..40) \ Ids(Props))})
NewProp(k, pid, new) == IF pid \in Ids({k}) THEN <<>> ELSE <<new>>
Add == /\ pc = "add" /\ UNCHANGED cfg
       /\ IF Cardinality(Els) >= cfg.n \/ cfg.kinds = {} THEN UNCHANGED hist /\ pc' = "dmig" ELSE UNCHANGED pc /\
          \E k \in {R(cfg.kinds)} : \E id \in {R((1..40) \ Ids(Elements))} : \E v \in {R(Val)} :
            CASE k \in {"CELAS1", "CDAMP1"} ->
                   LET pk == IF k = "CELAS1" THEN "PELAS" ELSE "PDAMP" IN
                   \E pid \in {Pid(pk)} : Two(LAMBDA g1, c1, g2, c2 : hist' = hist \o <<Card(k) @@ [id |-> id, pid |-> pid, g1 |-> g1, c1 |-> c1, g2 |-> g2, c2 |-> c2]>>
                                                \o NewProp(pk, pid, Card(pk) @@ [id |-> pid, v |-> v]))
              [] k \in {"CELAS2", "CMASS2"} -> Two(LAMBDA g1, c1, g2, c2 : hist' = Append(hist, Card(k) @@ [id |-> id, v |-> v, g1 |-> g1, c1 |-> c1, g2 |-> g2, c2 |-> c2]))
              [] k = "CBUSH" ->
                   \E pid \in {Pid("PBUSH")} : \E g1 \in {R(Gid)} : \E g2 \in {R(Gid \cup {0})} : \E side \in {R({TRUE, FALSE})} :
                   \E kk \in {TLCEval([c \in 1..6 |-> IF side /\ c \in {2, 3} THEN 0 ELSE R({0, 1, 3, 40})])} :
                   \E bb \in {TLCEval([c \in 1..6 |-> IF side /\ c \in {2, 3} THEN 0 ELSE R({0, 0, 2})])} :
                   LET p == IF pid \in Ids({"PBUSH"}) THEN Prop(hist, "PBUSH", pid) ELSE Card("PBUSH") @@ [id |-> pid, kk |-> kk, bb |-> bb]
                       \* between two grid points at a distance along x, no stiffness across
                       to == IF g2 = g1 \/ \E c \in {2, 3} : p.kk[c] # 0 \/ p.bb[c] # 0 THEN 0 ELSE g2 IN
                   hist' = hist \o <<Card(k) @@ [id |-> id, pid |-> pid, g1 |-> g1, g2 |-> to]>> \o NewProp("PBUSH", pid, p)
              [] k = "CONM1" -> \E t \in {TLCEval([j \in 1..21 |-> R({0, 0, 1, 2, 7})])} : \E g \in {R(Gid)} : hist' = Append(hist, Card(k) @@ [id |-> id, g1 |-> g, t |-> t])
              [] k = "CONM2" -> \E x \in {R({<<0, 0, 0>>, <<0, 0, 0>>, <<R(-2..2), R(-2..2), R(-2..2)>>})} : \E i \in {R({<<0, 0, 0, 0, 0, 0>>, <<9, 1, 8, R(-2..2), 3, 7>>})} : \E g \in {R(Gid)} :
                                  hist' = Append(hist, Card(k) @@ [id |-> id, g1 |-> g, v |-> R({1, 2, 5}), x |-> x, i |-> i])
              [] OTHER -> \E a \in {R(Gid)} : \E b \in {R(Gid)} : IF a = b THEN UNCHANGED hist ELSE hist' = Append(hist, Card(k) @@ [id |-> id, g1 |-> a, g2 |-> b])
\* direct matrices: the terms of a triangle, each once
Given == {<<x.m, x.a, x.b>> : x \in RangeOf(Cat([i \in DOMAIN hist |-> IF hist[i].k = "DMIG" THEN Column(hist[i]) ELSE <<>>]))}
Columns == {<<e.m, e.g1, e.c1>> : e \in {e \in RangeOf(hist) : e.k = "DMIG"}}
Dmig == /\ pc = "dmig" /\ UNCHANGED cfg
        /\ IF Cardinality({i \in DOMAIN hist : hist[i].k = "DMIG"}) >= cfg.dm THEN UNCHANGED hist /\ pc' = "spc" ELSE UNCHANGED pc /\
           \E m \in {R({"K", "K", "B", "M"})} : \E g \in {R(Gid)} : \E c \in {R(1..6)} : \E n \in {R(1..4)} :
           \E rows \in {TLCEval([i \in 1..n |-> <<R(Gid), R(1..6), R(Val)>>])} :
           LET col == Card("DMIG") @@ [m |-> m, g1 |-> g, c1 |-> c, rows |-> rows] q == Column(col) IN
           IF <<m, g, c>> \in Columns \/ (\E i, j \in DOMAIN q : i # j /\ q[i].a = q[j].a /\ q[i].b = q[j].b) \/ (\E i \in DOMAIN q : <<m, q[i].a, q[i].b>> \in Given)
           THEN UNCHANGED hist ELSE hist' = Append(hist, col)
Hold == /\ pc = "spc" /\ pc' = "mix" /\ UNCHANGED cfg
        /\ \E gs \in {R(SUBSET Gid)} : \E cs \in {R({{1, 2, 3, 4, 5, 6}, {1}, {1, 2}, {4, 6}})} :
           hist' = [i \in 1..Cardinality(Gid) |-> Card("GRID") @@ [id |-> SetToSeq(Gid)[i]]] \o hist
                   \o IF gs = {} THEN <<>> ELSE <<Card("SPC1") @@ [gs |-> SetToSeq(gs), c |-> SetToSortSeq(cs, LAMBDA a, b : a < b)]>>
Shuffle == /\ pc = "mix" /\ pc' = "done" /\ UNCHANGED cfg
           /\ \E k \in {TLCEval([i \in DOMAIN hist |-> R(1..100000)])} :
              LET q == SetToSortSeq(DOMAIN hist, LAMBDA a, b : k[a] < k[b] \/ (k[a] = k[b] /\ a < b)) IN hist' = [i \in DOMAIN hist |-> hist[q[i]]]
Done == pc = "done" /\ pc' = "end" /\ UNCHANGED <<hist, cfg>> /\ PrintT("@@" \o ToJson(hist))
Next == Start \/ Add \/ Dmig \/ Hold \/ Shuffle \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
