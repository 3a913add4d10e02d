----------------------------- MODULE G_Results -----------------------------
(* Random decks with the pages of a result file.                              *)
EXTENDS Results, TLC, Json
VARIABLES hist, pc, left, d
vars == <<hist, pc, left, d>>
R(S) == RandomElement(S)
Kinds == {"static", "static", "nonlinear", "modal", "frequency", "buckling"}
Ids(n) == CASE n = 1 -> {<<1>>, <<3>>, <<7>>} [] n = 2 -> {<<1, 2>>, <<2, 5>>} [] OTHER -> {<<1, 2, 3>>, <<2, 4, 9>>}
Subs(k) == CASE k = "buckling" -> R({<<1, 2>>, <<3, 5>>}) [] OTHER -> (IF R(1..4) = 1 THEN <<>> ELSE LET n == R(1..3) IN R(Ids(n)))
Bars(z) == LET n == R(2..4) IN LET g == R({0, 3, 20}) IN LET t == R(1..3) IN
        [i \in 1..n |-> [id |-> g + i, d |-> 6, cd |-> IF i < 2 \/ t = 1 THEN 0 ELSE R(0..3), y |-> 5 * (n + 1 - i)]]
Alone(z) == IF R(1..2) = 1 THEN <<>> ELSE <<[id |-> R({2, 90}) * 50, d |-> 0, cd |-> 0, y |-> 60]>>
Solid(z) == IF R(1..2) = 1 THEN <<>> ELSE [i \in 1..4 |-> [id |-> 40 + i, d |-> 3, cd |-> IF i < 3 /\ R(1..3) = 1 THEN R(1..3) ELSE 0, y |-> 100 + 5 * i]]
V(z) == R({0, 0, 1, -2, 1500, -33, 470000})
Init == hist = <<>> /\ pc = "start" /\ left = 0 /\ d = [subs |-> <<>>]
Begin == /\ pc = "start" /\  pc' = "pages" /\ left' = R(1..6)
         /\ \E k \in {R(Kinds)} : \E b \in {TLCEval(Bars(0))} : \E a \in {TLCEval(Alone(0))} : \E so \in {TLCEval(Solid(0))} : \E ss \in {TLCEval(Subs(k))} :
            \E low \in {IF k = "modal" /\ R(1..3) = 1 THEN 2500 ELSE 0} : \E tol \in {R({10, 300, 20000})} : \E strict \in {R(1..3) = 1} : \E crlf \in {R(1..5) = 1} : \E fmt \in {R(1..2)} :
            LET x == [ev |-> "deck", kind |-> k, subs |-> ss, grids |-> b \o a \o so, solid |-> IF so = <<>> THEN 0 ELSE 77,
                      low |-> low, tol |-> tol, strict |-> strict, crlf |-> crlf, format |-> fmt, csv |-> FALSE]
            IN d' = x /\ hist' = <<x>>
(* the table of an earlier study of the same deck, whose names are the numbers of the deck *)
Plain == /\ pc = "start" /\ pc' = "rows" /\ left' = R(1..9)
         /\ \E n \in {R(2..4)} : \E k \in {R({"static", "nonlinear"})} : \E ss \in {R({<<1>>, <<1, 2>>, <<1, 2, 3>>})} : \E cs \in {R({<<1, 2, 3, 4, 5, 6>>, <<1, 2, 3>>, <<3, 1, 6>>, <<2>>})} :
            \E tol \in {R({10, 300, 20000})} : \E crlf \in {R(1..3) = 1} : \E fmt \in {R(1..2)} : \E inst \in {R(1..4) # 1} :
            LET x == [ev |-> "deck", kind |-> k, subs |-> ss, grids |-> [i \in 1..n |-> [id |-> i, d |-> 6, cd |-> 0, y |-> 5 * (n + 1 - i)]], solid |-> 0,
                      low |-> 0, tol |-> tol, strict |-> FALSE, crlf |-> crlf, format |-> fmt, csv |-> TRUE, cols |-> cs, inst |-> inst]
            IN d' = x /\ hist' = <<x>>
Tabular == /\ pc = "rows" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<pc, d>>
           /\ \E g \in {R(1..Len(d.grids))} : \E r \in {R(1..(Len(d.subs) + 1))} : \E t \in {R({0, 5, 10})} :
              hist' = Append(hist, [ev |-> "line", l |-> "line of a table", r |-> r, g |-> g, t |-> IF d.inst THEN t ELSE -1, cols |-> d.cols, v |-> TLCEval([i \in 1..6 |-> V(i)])])
Line(x) == [ev |-> "line"] @@ x
Heading(sc) == Line([l |-> "heading", sc |-> sc, words |-> R({0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}), label |-> R(1..6), page |-> R(1..3) # 1])
Blank(z) == IF R(1..2) = 1 THEN <<>> ELSE <<Line([l |-> "blank"])>>
Sec(z) == CASE d.kind \in {"static", "nonlinear"} -> R({"displacement", "displacement", "other"} \cup (IF d.solid # 0 THEN {"stress"} ELSE {}))
         [] d.kind = "modal" -> R({"eigenvalues", "eigenvalues", "other"})
         [] d.kind = "buckling" -> R({"displacement", "eigenvalues", "other"})
         [] OTHER -> R({"eigenvalues", "residual", "actual", "complex", "complex", "other"})
Known == {d.grids[i].id : i \in DOMAIN d.grids}
Row(g, w) == LET t == R(1..8) IN LET n == R({1, 6}) IN
             Line([l |-> "row", g |-> g, t |-> IF t = 1 THEN "S" ELSE "G", n |-> IF t = 1 THEN n ELSE 6, v |-> [i \in 1..6 |-> V(i)], w |-> IF w THEN [i \in 1..6 |-> V(i)] ELSE Zeros])
RECURSIVE RowsFor(_, _)
RowsFor(S, w) == IF S = {} THEN <<>> ELSE LET g == CHOOSE x \in S : \A y \in S : x <= y IN <<Row(g, w)>> \o RowsFor(S \ {g}, w)
ModesFor(n) == [i \in 1..n |-> Line([l |-> "mode", n |-> i, cyc |-> R({1000, 2400, 2600, 40000}) + i, eig |-> R({100, 50000, -7000}) + i, mass |-> R({1000, 1000, 1250}), stiff |-> R({900, 70000}) + i])]
StressFor(n) == [i \in 1..n |-> Line([l |-> "stress", e |-> IF i = n THEN 77 ELSE 70 + i, gs |-> <<41, 42, 43, 44>>, v |-> [j \in 1..4 |-> R({1, 5000, 26400})], split |-> R({0, 0, 0, 1, 2, 4})])]
Body(sec) == CASE sec \in {"displacement", "complex", "other"} -> RowsFor(R(SUBSET (Known \cup (IF R(1..3) = 1 THEN {8000} ELSE {}))), sec = "complex")
               [] sec = "stress" -> StressFor(R(1..2))
               [] OTHER -> ModesFor(R(1..4))
(* where a section stands in the kind of analysis it belongs to *)
Of(sec) == IF d.kind = "buckling" THEN (IF sec = "eigenvalues" THEN {d.subs[2]} ELSE {d.subs[1]}) ELSE {d.subs[i] : i \in DOMAIN d.subs}
Page == /\ pc = "pages" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<pc, d>>
        /\ \E sec \in {Sec(0)} : \E sc \in {IF d.subs = <<>> THEN 0 ELSE IF R(1..6) = 1 THEN R({11, 12}) ELSE R(Of(sec))} :
           hist' = hist \o <<Heading(sc)>>
                   \o (IF d.kind = "nonlinear" /\ R(1..5) # 1 THEN <<Line([l |-> "step", t |-> R({5, 10, 15})])>> ELSE <<>>)
                   \o (IF sec = "complex" THEN <<Line([l |-> "freq", t |-> R({20, 58, 960})])>> ELSE <<>>)
                   \o Blank(1) \o <<Line([l |-> "title", sec |-> sec])>> \o Blank(2) \o TLCEval(Body(sec)) \o Blank(3)
                   \o (IF R(1..4) = 1 THEN <<Line([l |-> "text"])>> ELSE <<>>)
Done == pc \in {"pages", "rows"} /\ left = 0 /\ pc' = "end" /\ UNCHANGED <<hist, left, d>> /\ PrintT("@@" \o ToJson(hist))
Next == (IF R(1..6) = 1 THEN Plain ELSE Begin) \/ Tabular \/ Page \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
