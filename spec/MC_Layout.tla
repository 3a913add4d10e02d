------------------------------ MODULE MC_Layout ------------------------------
(* Every short deck, in every layout: what is scanned is what was written.     *)
(* Padded = FALSE forgets the fields left out at the end of a line.            *)
EXTENDS Layout
CONSTANTS MaxFields, MaxCards, Padded
VARIABLES deck, lines, rd, todo
vars == <<deck, lines, rd, todo>>
Fields == UNION {[1..n -> {0, 1, 2}] : n \in 0..MaxFields}
Cards == {[kw |-> k, f |-> g] : k \in {"A"}, g \in {h \in Fields : h = Trim(h)}}
Lays == [fmt : {"short", "long", "free", "mixed", "mixed2"}, cont : {"auto", "plus", "mark"}, omit : {TRUE, FALSE}, inner : {TRUE, FALSE}]
Init == deck = <<>> /\ lines = <<>> /\ rd = Empty /\ todo = <<>>
Lay == /\ todo = <<>> /\ Len(deck) < MaxCards
       /\ \E c \in Cards, y \in Lays : deck' = Append(deck, c) /\ todo' = Write(c, y)
       /\ UNCHANGED <<lines, rd>>
Bad(r, l) == IF l.k = "text" /\ l.head # "kw" THEN [r EXCEPT !.f = @ \o l.cells, !.at = r.at + Width(l.fmt)] ELSE Scan(r, l)
Read == /\ todo # <<>> /\ rd' = (IF Padded THEN Scan(rd, todo[1]) ELSE Bad(rd, todo[1]))
        /\ todo' = Tail(todo) /\ UNCHANGED <<deck, lines>>
Next == Lay \/ Read
Spec == Init /\ [][Next]_vars
SameCards == todo = <<>> => Result(rd) = deck
(* no line of a card carries more cells than its format has *)
Fits == \A i \in DOMAIN todo : Len(todo[i].cells) <= Width(todo[i].fmt) \/ todo[i].k # "text"
=============================================================================
