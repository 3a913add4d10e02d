--------------------------- MODULE MC_CaseControl ---------------------------
(* The case control reader as it works line by line (a context of global       *)
(* selections, a context per subcase that starts from it), explored over every *)
(* sequence of lines, against the selections Deck gives to each analysis.      *)
(* Isolated = FALSE lets a subcase write into the global context.              *)
EXTENDS Deck
CONSTANTS MaxLines, Isolated
VARIABLES lines, glob, cur, an, ph
vars == <<lines, glob, cur, an, ph>>
Keys == {"spc", "load", "mpc"}
Vals == {1, 2}
Line == {<<"set", k, v>> : k \in Keys, v \in Vals} \cup {<<"sub", i>> : i \in {1, 2, 5}} \cup {<<"title">>}
Subs == {i \in DOMAIN lines : lines[i][1] = "sub"}
LastId == IF Subs = {} THEN 0 ELSE lines[CHOOSE i \in Subs : \A j \in Subs : j <= i][2]
None == [id |-> 0, sel |-> NoSel]
Init == lines = <<>> /\ glob = NoSel /\ cur = None /\ an = <<>> /\ ph = "read"
Set == /\ ph = "read" /\ Len(lines) < MaxLines
       /\ \E k \in Keys, v \in Vals :
            /\ lines' = Append(lines, <<"set", k, v>>)
            /\ cur' = [cur EXCEPT !.sel[k] = v]
            /\ glob' = IF cur.id = 0 \/ ~Isolated THEN [glob EXCEPT ![k] = v] ELSE glob
       /\ UNCHANGED <<an, ph>>
Title == /\ ph = "read" /\ Len(lines) < MaxLines /\ lines' = Append(lines, <<"title">>) /\ UNCHANGED <<glob, cur, an, ph>>
Flush == IF cur.id = 0 THEN an ELSE Append(an, cur)
Subcase == /\ ph = "read" /\ Len(lines) < MaxLines
           /\ \E i \in {1, 2, 5} : i > LastId /\ lines' = Append(lines, <<"sub", i>>)
                 /\ cur' = [id |-> i, sel |-> glob] /\ an' = Flush
           /\ UNCHANGED <<glob, ph>>
Begin == /\ ph = "read" /\ ph' = "done"
         /\ an' = IF Subs = {} THEN <<[id |-> -1, sel |-> cur.sel]>> ELSE Flush
         /\ UNCHANGED <<lines, glob, cur>>
Next == Set \/ Title \/ Subcase \/ Begin
Spec == Init /\ [][Next]_vars
(* the declarative reading: the last selection in a section, or the last one above the first subcase *)
LastSet(k, lo, hi) == LET S == {i \in lo..hi : lines[i][1] = "set" /\ lines[i][2] = k}
                      IN IF S = {} THEN 0 ELSE lines[CHOOSE i \in S : \A j \in S : j <= i][3]
First == IF Subs = {} THEN Len(lines) + 1 ELSE CHOOSE i \in Subs : \A j \in Subs : i <= j
End(i) == LET N == {j \in Subs : j > i} IN IF N = {} THEN Len(lines) ELSE (CHOOSE j \in N : \A k \in N : j <= k) - 1
SubAt(n) == CHOOSE i \in Subs : Cardinality({j \in Subs : j < i}) = n - 1
SelOf(lo, hi) == [spc |-> LastSet("spc", lo, hi), mpc |-> LastSet("mpc", lo, hi), load |-> LastSet("load", lo, hi)]
Deck0 == LET D == [EmptyDeck EXCEPT !.glob = SelOf(1, First - 1)]
         IN [D EXCEPT !.subs = [n \in 1..Cardinality(Subs) |-> [id |-> lines[SubAt(n)][2], sel |-> SelOf(SubAt(n), End(SubAt(n)))]]]
Cases == ph = "done" => an = ExpCases(Deck0)
=============================================================================
