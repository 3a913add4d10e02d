------------------------------ MODULE G_Lexer ------------------------------
(* Random decks in random layouts, as the physical lines a reader sees.       *)
EXTENDS Layout, TLC, Json, Randomization
CONSTANTS NTok, NLong           \* tokens 1..NTok fit a short field, up to NLong a long one
VARIABLES hist, n, todo, crlf
vars == <<hist, n, todo, crlf>>
R(S) == RandomElement(S)
Dice(k) == R(1..k)
Kws == {"AAA", "BCD", "GRIDX", "LONGKEY"}
RandLay(x) == LET f == R({"short", "short", "long", "free", "free", "mixed", "mixed2"})
                  t == IF f \in {"mixed", "mixed2", "long"} THEN R({"auto", "mark"}) ELSE R({"auto", "plus", "mark"})
                  c == IF f \in {"mixed", "mixed2"} THEN "auto" ELSE t
              IN [fmt |-> f, cont |-> c,
                  \* a fixed format line that announces its continuation is a full line
                  omit |-> IF c # "auto" /\ f # "free" THEN FALSE ELSE IF f = "free" /\ c = "mark" THEN FALSE ELSE Dice(2) = 1,
                  inner |-> Dice(4) = 1]
RandCard(lay) == LET k == R({0, 1, 3, 7, 8, 9, 12, 16, 17, 24, 25})
                     top == IF lay.fmt = "long" THEN NLong ELSE NTok
                 IN [kw |-> R(Kws), f |-> [i \in 1..k |-> IF i = k \/ i % 4 = 1 THEN R(1..top) ELSE IF Dice(4) = 1 THEN 0 ELSE R(1..top)]]
Look(l) == [ev |-> "line", align |-> R({"l", "r", "c"}), tabs |-> Dice(6) = 1, dollar |-> Dice(6) = 1, lower |-> Dice(3) = 1, trail |-> Dice(6) = 1, comma |-> Dice(4) = 1, crlf |-> crlf] @@ l
Filler(x) == LET c == Dice(8) IN IF c = 1 THEN <<Comment>> ELSE IF c = 2 THEN <<[Comment EXCEPT !.k = "blank"]>> ELSE IF c = 3 THEN <<[Comment EXCEPT !.k = "lateral"]>> ELSE <<>>
Init == hist = <<>> /\ n = R({2, 3, 4, 6}) /\ todo = <<>> /\ crlf = (Dice(8) = 1)
Lay == /\ todo = <<>> /\ n > 0 /\ n' = n - 1 /\ UNCHANGED <<hist, crlf>>
       /\ \E y \in {RandLay(n)} : \E c \in {RandCard(y)} : todo' = Write(c, y) \o Filler(n)
Emit == /\ todo # <<>> /\ todo' = Tail(todo) /\ hist' = Append(hist, Look(todo[1])) /\ UNCHANGED <<n, crlf>>
Finish == /\ todo = <<>> /\ n = 0 /\ n' = -1 /\ PrintT("@@" \o ToJson(hist)) /\ UNCHANGED <<hist, todo, crlf>>
Next == Lay \/ Emit \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
