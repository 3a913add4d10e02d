----------------------------- MODULE G_MeshStore -----------------------------
(* Histories of mesh operations, every one legal in the state it reaches.       *)
EXTENDS MeshStore, TLC, Json
CONSTANT Len0
VARIABLES h, s, au, ac, up
vars == <<h, s, au, ac, up>>
R(S) == RandomElement(S)
Dice(x) == R(1..x)
Op(o, a) == [ev |-> "op", o |-> o, a |-> a]
High == {9999999 - i : i \in 0..4}
NodeIds(x) == IF Dice(5) = 1 THEN (IF au = 0 THEN High ELSE (High \cap NIds(s)) \cup {3}) ELSE 1..9
CellIds(x) == ((IF Dice(5) = 1 /\ ac = 0 THEN High ELSE {}) \cup 1..12) \ CIds(s)
Nn == [t \in 1..25 |-> CASE t = 1 -> 1 [] t = 2 -> 2 [] t \in {3, 23} -> 3 [] t \in {4, 5, 24} -> 4 [] OTHER -> 5]
RECURSIVE Distinct(_, _)
Distinct(k, used) == IF k = 0 THEN <<>> ELSE LET x == R((1..9) \ used) IN <<x>> \o Distinct(k - 1, used \cup {x})
Nodes(t) == Distinct(Nn[t], {})
Coord(x) == [i \in 1..3 |-> R(-9..9)]
L(q) == <<Len(q)>> \o q
Of(k) == {n \in DOMAIN s.groups : s.groups[n].k = k}
InK(n) == n \in s.k.ng \cup s.k.cg
Nope == [op |-> Op("ask", <<R(NodeIds(0))>>), s |-> s]
Pos(q) == 0..(Len(q) - 1)
Live == {c \in Pos(s.cells) : CPos(s, s.cells[c + 1].id) = c}
Known == {id \in CIds(s) : id > 0}
Some(S, F(_)) == IF S = {} THEN Nope ELSE LET x == R(S) IN F(x)
Pick(k) ==
  CASE k <= 4 -> LET id == R(NodeIds(k)) p == Coord(k) IN [op |-> Op("node", <<id>> \o p), s |-> Define(s, id, p)]
    [] k = 5 -> LET p == Coord(k) IN [op |-> Op("anode", p), s |-> Define(s, 0 - 1 - Len(s.nodes), p)]
    [] k \in 6..7 -> LET id == R(NodeIds(k)) IN [op |-> Op("reserve", <<id>>), s |-> Reserve(s, id)]
    [] k = 8 -> LET q == SortSeq(Distinct(Dice(4), {}), <) IN [op |-> Op("reserves", L(q)), s |-> ReserveAll(s, q)]
    [] k = 9 -> LET F(p) == LET m == R(0..63) IN [op |-> Op("allow", <<p, m>>), s |-> Allow(s, p, {d \in 1..6 : (m \div 2 ^ (d - 1)) % 2 = 1})] IN Some(Pos(s.nodes), F)
    [] k \in 10..14 -> LET F(id) == LET t == Dice(5) q == Nodes(t) IN [op |-> Op("cell", <<id, t>> \o L(q)), s |-> AddCell(s, id, t, q)] IN Some(CellIds(k), F)
    [] k = 15 -> LET t == Dice(5) q == Nodes(t) IN [op |-> Op("acell", <<t>> \o L(q)), s |-> AddCell(s, 0 - 1 - Len(s.cells), t, q)]
    [] k = 16 -> LET F(id) == LET t == R(23..25) q == Nodes(t) IN [op |-> Op("ucell", <<id, t>> \o L(q)), s |-> Update(s, id, t, q)] IN IF Dice(3) = 1 THEN Some(Known, F) ELSE Nope
    [] k = 17 -> LET n == Dice(5) g == R(0..4) IN [op |-> Op("ngroup", <<n, g>>), s |-> NewGroup(s, n, 1, g)]
    [] k \in 18..19 -> LET n == Dice(5) g == R(0..4) IN [op |-> Op("cgroup", <<n, g>>), s |-> NewGroup(s, n, 2, g)]
    [] k = 20 -> LET n == Dice(5) g == R(0..4) IN [op |-> Op("fgroup", <<n, g>>), s |-> FindGroup(s, n, g)]
    [] k = 21 -> LET F(n) == [op |-> Op("rmgroup", <<n>>), s |-> DropGroup(s, n)] IN Some({n \in DOMAIN s.groups : ~InK(n)} \cup ((1..5) \ DOMAIN s.groups), F)
    [] k = 22 -> LET F(n) == LET b == R((1..6) \ DOMAIN s.groups) IN [op |-> Op("rename", <<n, b>>), s |-> Rename(s, n, b)] IN Some({n \in DOMAIN s.groups : ~InK(n) /\ n < 6}, F)
    [] k \in 23..24 -> LET F(n) == LET id == R(NodeIds(k)) IN [op |-> Op("gnode", <<n, id>>), s |-> GroupNodes(s, n, <<id>>)] IN Some(Of(1), F)
    [] k = 25 -> LET F(n) == LET q == Distinct(Dice(4), {}) IN [op |-> Op("gnodes", <<n>> \o L(q)), s |-> GroupNodes(s, n, q)] IN Some(Of(1), F)
    [] k = 26 -> LET F(n) == IF s.nodes = <<>> THEN Nope ELSE LET p == R(Pos(s.nodes)) IN [op |-> Op("gnodepos", <<n, p>>), s |-> Into(s, n, {p})] IN Some(Of(1), F)
    [] k = 27 -> LET F(n) == LET p == R(s.groups[n].mem) IN [op |-> Op("gnoderm", <<n, p>>), s |-> Out(s, n, p)] IN Some({n \in Of(1) : s.groups[n].mem # {}}, F)
    [] k \in 28..30 -> LET F(n) == IF Known = {} THEN Nope ELSE LET id == R(Known) IN [op |-> Op("gcell", <<n, id>>), s |-> GroupCells(s, n, <<id>>)] IN Some(Of(2), F)
    [] k = 31 -> LET F(n) == IF Known = {} THEN Nope ELSE LET q == SetToSeq(R(SUBSET Known)) IN [op |-> Op("gcells", <<n>> \o L(q)), s |-> GroupCells(s, n, q)] IN Some(Of(2), F)
    [] k = 32 -> LET F(n) == IF Live = {} THEN Nope ELSE LET p == R(Live) IN [op |-> Op("gcellpos", <<n, p>>), s |-> Into(s, n, {p})] IN Some(Of(2), F)
    [] k = 33 -> LET F(n) == LET p == R(s.groups[n].mem) IN [op |-> Op("gcellrm", <<n, p>>), s |-> Out(s, n, p)] IN Some({n \in Of(2) : s.groups[n].mem # {}}, F)
    [] k = 34 -> LET id == R(NodeIds(k)) r == Reserve(s, id) IN [op |-> Op("knode", <<id>>), s |-> [r EXCEPT !.k.n = @ \cup {NPos(r, id)}]]
    [] k = 35 -> LET F(id) == [op |-> Op("kcell", <<id>>), s |-> [s EXCEPT !.k.c = @ \cup {CPos(s, id)}]] IN IF up THEN Nope ELSE Some(Known, F)
    [] k = 36 -> LET F(n) == [op |-> Op("kngroup", <<n>>), s |-> [s EXCEPT !.k.ng = @ \cup {n}]] IN Some(Of(1), F)
    [] k = 37 -> LET F(n) == [op |-> Op("kcgroup", <<n>>), s |-> [s EXCEPT !.k.cg = @ \cup {n}]] IN Some(Of(2), F)
    [] k = 38 -> IF Dice(6) = 1 THEN [op |-> Op("kclear", <<>>), s |-> [s EXCEPT !.k = Empty.k]] ELSE Nope
    [] k \in 39..40 -> [op |-> Op("k", <<>>), s |-> s]
    [] k = 41 -> LET F(p) == [op |-> Op("cellat", <<p>>), s |-> s] IN Some(Live, F)
    [] k \in 42..43 -> [op |-> Op("group", <<Dice(6)>>), s |-> s]
    [] k = 44 -> [op |-> Op("gids", <<>>), s |-> s]
    [] k = 45 -> [op |-> Op("nodes", <<>>), s |-> s]
    [] k = 46 -> IF up THEN Nope ELSE [op |-> Op("bytype", <<>>), s |-> s]
    [] k = 47 -> [op |-> Op("ask", <<R(CIds(s) \cup High \cup 1..9) >>), s |-> s]
    [] OTHER -> Nope
Ok(o) == ~(o.o = "ask" /\ o.a[1] < 0)
Init == h = <<>> /\ s = Empty /\ au = 0 /\ ac = 0 /\ up = FALSE
Do == /\ Len(h) < Len0
      /\ \E k \in {Dice(48)} : \E x \in {Pick(k)} :
           /\ h' = IF Ok(x.op) THEN Append(h, x.op) ELSE h
           /\ s' = x.s /\ au' = (IF x.op.o = "anode" THEN 1 ELSE au) /\ ac' = (IF x.op.o = "acell" THEN 1 ELSE ac) /\ up' = (up \/ x.op.o = "ucell")
Ends == [i \in 1..6 |-> Op("group", <<i>>)] \o <<Op("gids", <<>>), Op("nodes", <<>>), Op("k", <<>>)>> \o (IF up THEN <<>> ELSE <<Op("bytype", <<>>)>>)
        \o [i \in 1..Cardinality(Live) |-> Op("cellat", <<SetToSortSeq(Live, <)[i]>>)]
Finish == Len(h) = Len0 /\ h' = h \o Ends /\ PrintT("@@" \o ToJson(h')) /\ UNCHANGED <<s, au, ac, up>>
Spec == Init /\ [][Do \/ Finish]_vars
=============================================================================
