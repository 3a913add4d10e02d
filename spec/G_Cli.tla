-------------------------------- MODULE G_Cli --------------------------------
EXTENDS Cli, TLC, Json, SequencesExt
VARIABLES r, n
R(S) == RandomElement(S)
(* mostly nothing or one thing out of the ordinary *)
Plain == [input |-> "good", modes |-> {}, extra |-> "", out |-> "there", from |-> "NASTRAN", to |-> "ASTER"]
Change(x, k) == CASE k = "input" -> [x EXCEPT !.input = R(Inputs)] [] k = "modes" -> [x EXCEPT !.modes = R(ModeSets)] [] k = "extra" -> [x EXCEPT !.extra = R(Extras)]
                  [] k = "out" -> [x EXCEPT !.out = R(Outdirs)] [] k = "from" -> [x EXCEPT !.from = R(Formats)] [] k = "to" -> [x EXCEPT !.to = R(Targets)]
Fit(y) == LET z == [y EXCEPT !.from = IF y.input = "none" THEN "" ELSE @, !.to = IF y.input = "none" \/ y.from = "" THEN "" ELSE @]
          IN [z EXCEPT !.extra = IF @ = "toomany" /\ z.to = "" THEN "unknown" ELSE @]
Init == r = Plain /\ n = 0
Next == /\ n < 3 /\ n' = n + 1
        /\ \E k \in {R({"input", "modes", "extra", "extra", "out", "from", "to"})} : \E y \in {Change(r, k)} :
             /\ r' = y
             /\ (n' = 3 => LET z == Fit(y) IN Assert(Spelt(z), z) /\ PrintT("@@" \o ToJson([z EXCEPT !.modes = SetToSeq(@)])))
Spec == Init /\ [][Next]_<<r, n>>
=============================================================================
