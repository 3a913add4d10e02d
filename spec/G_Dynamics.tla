----------------------------- MODULE G_Dynamics -----------------------------
(* Random decks: the cards are drawn first and laid down in any order.        *)
EXTENDS Dynamics, TLC, Json
VARIABLES hist, pc, pool, d
vars == <<hist, pc, pool, d>>
R(S) == RandomElement(S)
Ids == {1, 2, 3, 5, 12}
Pick(n) == R({x \in SUBSET Ids : Cardinality(x) = n})
Card(x) == [ev |-> "card"] @@ x
Pts(n, lo) == [i \in 1..n |-> [x |-> 10 * i + R({0, 1, 5}), y |-> IF lo > 0 THEN R({lo, 2 * lo, 20}) ELSE R({0, 1, -2, 3, 40}), skip |-> n > 2 /\ i \in {2, 3} /\ R(1..4) = 1]]
Table(id) == Card([k |-> "table", id |-> id, xlog |-> R(1..3) = 1, ylog |-> R(1..3) = 1, pts |-> TLCEval(Pts(R(1..6), 0))])
(* static loads or DAREA, one card for a component of a grid point *)
Area(id) == LET by == R({"DAREA", "FORCE"}) IN LET n == R(1..3) IN LET cs == TLCEval({<<R(2..4), i>> : i \in R({x \in SUBSET (1..6) : Cardinality(x) = n})}) IN
            {Card([k |-> "area", id |-> id, by |-> by, g |-> x[1], c |-> x[2], a |-> R({1, -1, 2, 7})]) : x \in cs}
Rload(id, areas, tables) == Card([k |-> "rload", id |-> id, how |-> R(1..2), area |-> R(areas), table |-> R(tables), phase |-> R({0, 0, 30, -45, 90}), named |-> R(1..3) = 1, type |-> R({"", "LOAD", "L", "0"})])
Dload(id, rloads) == LET n == R(1..3) IN LET m == IF n > Cardinality(rloads) THEN 1 ELSE n IN LET S == R({x \in SUBSET rloads : Cardinality(x) = m}) IN
                     LET q == CHOOSE f \in [1..m -> S] : \A i, j \in 1..m : i # j => f[i] # f[j] IN
                     Card([k |-> "dload", id |-> id, s |-> R({2, 2, 4, -2, 1}), terms |-> TLCEval([i \in 1..m |-> [s |-> R({2, 2, 6, -4, 1}), id |-> q[i]]])])
Search(id) == LET lo == R({-1, -1, 0, 20}) IN LET hi == R({-1, 900, 40000}) IN
              Card([k |-> "search", id |-> id, card |-> R({"EIGRL", "EIGR"}), lo |-> lo, hi |-> hi, n |-> R({-1, 1, 4, 12}), norm |-> R({"", "MASS", "MAX", "POINT"})])
List(n) == [i \in 1..n |-> R({5, 20, 21, 58, 96, 700}) + 1000 * R(0..2)]
Freq(id, n) == IF R(1..2) = 1 THEN Card([k |-> "freq", n |-> n, how |-> "list", id |-> id, v |-> TLCEval(List(R(1..9)))])
               ELSE Card([k |-> "freq", how |-> "step", id |-> id, start |-> R({10, 58, 300}), step |-> R({1, 25, 100}), n |-> R(1..5)])
Freqs(id) == IF R(1..7) = 1 THEN {Card([k |-> "freq", how |-> "spread", id |-> id, start |-> R({10, 200}), end |-> R({900, 7000}), spread |-> R({1, 5, 20}), n |-> R({3, 5})])}
             ELSE {Freq(id, i) : i \in 1..R({1, 1, 2, 3})}
Damp(id) == Card([k |-> "damp", id |-> id, type |-> R({"", "G", "CRIT"}), pts |-> TLCEval(Pts(R(1..5), 2))])
Spc(id) == {Card([k |-> "spc", id |-> id, g |-> 1, c |-> c]) : c \in 1..6} \cup (IF R(1..2) = 1 THEN {} ELSE {Card([k |-> "spc", id |-> id, g |-> R(2..3), c |-> R(1..6)])})
All(f(_), S) == {f(i) : i \in S}
Init == hist = <<>> /\ pc = "start" /\ pool = {} /\ d = <<>>
Begin ==
  /\ pc = "start" /\ pc' = "cards"
  /\ \E kind \in {R({"modal", "response", "response", "direct"})} : \E t \in {Pick(R(1..2))} : \E a \in {Pick(R(1..3))} : \E r \in {Pick(R(1..3))} : \E se \in {Pick(R(1..2))} :
     \E f \in {Pick(R(1..2))} : \E dm \in {Pick(R(1..2))} : \E sp \in {Pick(R(1..2))} :
     \E dl \in {R(SUBSET (Ids \ r))} : \E cut \in {[lo |-> R({0, 0, 30}), hi |-> R({-1, -1, 20000})]} : \E free \in {R(1..3) = 1} :
     LET areas == TLCEval(UNION All(Area, a)) fr == TLCEval(IF kind = "modal" THEN {} ELSE IF kind = "response" THEN UNION All(Freqs, f) ELSE {Freq(i, 1) : i \in f} \cup {Freq(i, 2) : i \in f})
         exc == TLCEval({Rload(i, a, t) : i \in r} \cup {Dload(i, r) : i \in dl})
         cards == (IF kind = "modal" THEN {} ELSE areas \cup exc \cup {Table(i) : i \in t}) \cup (IF kind = "direct" THEN {} ELSE {Search(i) : i \in se})
                  \cup fr \cup (IF kind = "response" THEN {Damp(i) : i \in dm} ELSE {}) \cup UNION All(Spc, sp)
     IN /\ pool' = TLCEval(cards)
        /\ d' = [method |-> se, freq |-> f, damp |-> dm \cup {0}, spc |-> sp, dload |-> r \cup dl, n |-> R(1..4), kind |-> kind]
        /\ hist' = <<[ev |-> "deck", kind |-> kind, cut |-> cut, free |-> free]>>
Lay == /\ pc = "cards" /\ pool # {} /\ UNCHANGED <<pc, d>>
       /\ \E e \in {R(pool)} : hist' = Append(hist, e) /\ pool' = pool \ {e}
Subs(n) == [i \in 1..n |-> [ev |-> "sub", id |-> 3 * i - R(0..1), method |-> R(d.method), freq |-> R(d.freq), damp |-> R(d.damp), spc |-> R(d.spc), dload |-> R(d.dload), residual |-> R(1..4) = 1]]
Done == /\ pc = "cards" /\ pool = {} /\ pc' = "end" /\ UNCHANGED <<pool, d>>
        /\ \E q \in {TLCEval(Subs(d.n))} : hist' = hist \o q /\ PrintT("@@" \o ToJson(hist \o q))
Next == Begin \/ Lay \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
