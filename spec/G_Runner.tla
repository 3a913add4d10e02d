------------------------------ MODULE G_Runner ------------------------------
(* Random sessions: calls of the translator that follow one another.          *)
EXTENDS Runner, TLC, Json
VARIABLES hist, pc, left
vars == <<hist, pc, left>>
R(S) == RandomElement(S)
None == [cmd |-> "", cfg |-> ""]
Values(n) == IF n \in DOMAIN Choices THEN Choices[n]
             ELSE CASE n = "size" -> {"3", "5", "12"} [] n = "command" -> {"mysolver", "other", "as_run"} [] OTHER -> {"2014", "2017"}
Wrong == {"wrong", "shel", "Penalty"}
Value(n) == IF n \in DOMAIN Choices /\ R(1..40) = 1 THEN R(Wrong) ELSE R(Values(n))
Option(n) == LET w == R(1..8) IN CASE w <= 3 -> None [] w <= 5 -> [cmd |-> Value(n), cfg |-> ""] [] w = 6 -> [cmd |-> "", cfg |-> Value(n)] [] OTHER -> [cmd |-> Value(n), cfg |-> Value(n)]
Status == {0, 0, 0, 0, 1, 2, 3, 4, 5, 10, 64, 100, 101, 103, 105, 127, 128, 129, 130, 137, 139, 143, 165, 166, 200, 255}
Signals == {1, 2, 6, 8, 9, 11, 13, 15}
(* a parameter keeps TLC from evaluating a random choice once for all *)
Solver(k) == LET f == R(1..9) # 1 IN LET h == IF f /\ R(1..5) = 1 THEN "signal" ELSE "exit" IN
          LET n == IF ~f THEN 0 ELSE IF h = "signal" THEN R(Signals) ELSE IF R(1..2) = 1 THEN 0 ELSE R(Status) IN LET s == f /\ R(1..3) # 1 IN
          [found |-> f, how |-> h, n |-> n, res |-> s, nook |-> s /\ R(1..3) = 1, err |-> f /\ R(1..4) = 1]
Init == hist = <<>> /\ pc = "start" /\ left = 0
Start == pc = "start" /\ pc' = "calls" /\ left' = R(1..3) /\ UNCHANGED hist
Call == /\ pc = "calls" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED pc
        /\ \E t \in {R({"ASTER", "NASTRAN", "SYSTUS"})} : \E s \in {TLCEval(Solver(left))} : \E o \in {TLCEval([n \in Names |-> Option(n)])} :
           \E d \in {R(1..12)} : \E k \in {R(1..15)} : \E r \in {R(1..3)} : \E st \in {R(1..3)} : \E te \in {R(1..12)} : \E far \in {R(1..4)} :
           hist' = Append(hist, [ev |-> "call", target |-> t, opts |-> o, solver |-> [s EXCEPT !.err = t = "SYSTUS" /\ s.err],
                                 deck |-> CASE d = 1 -> "missing" [] d <= 3 -> "bad" [] OTHER -> "good", strict |-> st = 1, run |-> r # 1,
                                 test |-> IF te = 1 THEN "missing" ELSE "none", dir |-> IF k = 1 THEN "refused" ELSE "ok",
                                 out |-> R({".", "out", "out", "out", "out x", "it's", "new/er", "/abs"}), name |-> R({"a", "a", "my deck", "b.c"}), home |-> R(1..3) = 1,
                                 left |-> R({<<>>, <<>>, <<"ok">>, <<"nook">>})])
Done == pc = "calls" /\ left = 0 /\ pc' = "end" /\ UNCHANGED <<hist, left>> /\ PrintT("@@" \o ToJson(hist))
Next == Start \/ Call \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
