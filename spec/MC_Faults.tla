------------------------------ MODULE MC_Faults ------------------------------
(* The reader of the bulk data at the level of physical lines: a card is a     *)
(* first line and continuation lines, the reader gathers them, dispatches on    *)
(* the keyword, checks the fields from left to right and applies the card as    *)
(* its last step.  An error passes over the whole card (best effort) or ends    *)
(* the translation (strict).  Whatever the order of good and faulty cards, the  *)
(* number of lines of each and the line of the error:                           *)
(*   - best effort applies exactly the good cards, in order, and succeeds;      *)
(*   - strict succeeds exactly when no card is faulty.                          *)
(* SKIPLINE passes over the line of the error only: the rest of the card is     *)
(* read as cards of unknown keyword, which changes neither.                     *)
(* Wrong variants: EARLY applies the card when its first line is checked; EAT   *)
(* takes one line too many.                                                     *)
EXTENDS Integers, Sequences
CONSTANTS MaxCards, MaxLines, Variant
VARIABLES cards, mode, pos, line, cur, applied, code, pc
vars == <<cards, mode, pos, line, cur, applied, code, pc>>
(* err 0: a good card; k: the error shows on line k *)
CardSet == {c \in [n : 1..MaxLines, err : 0..MaxLines] : c.err <= c.n}
RECURSIVE Lines(_, _)
Lines(cs, i) == IF cs = <<>> THEN <<>> ELSE [k \in 1..Head(cs).n |-> [card |-> i, k |-> k, bad |-> Head(cs).err = k, last |-> k = Head(cs).n]] \o Lines(Tail(cs), i + 1)
Deck == Lines(cards, 1)
Init == /\ cards \in UNION {[1..n -> CardSet] : n \in 0..MaxCards} /\ mode \in {"best", "strict"}
        /\ pos = 1 /\ line = 0 /\ cur = <<>> /\ applied = <<>> /\ code = 0 /\ pc = "next"
(* gathers a card: the line at pos and the continuation lines after it *)
Gathered == LET L == Deck
                More(k) == \A j \in (pos + 1)..k : L[j].k > 1
                e == CHOOSE x \in pos..Len(L) : More(x) /\ (x = Len(L) \/ ~More(x + 1))
            IN SubSeq(L, pos, e)
ReadCard == /\ pc = "next" /\ pos <= Len(Deck) /\ cur' = Gathered /\ line' = 1 /\ pc' = "check"
            /\ pos' = pos + Len(Gathered) /\ UNCHANGED <<cards, mode, applied, code>>
(* a continuation line taken for a card has no known keyword *)
Unknown == cur[1].k > 1
CheckLine == /\ pc = "check" /\ ~Unknown /\ line <= Len(cur) /\ ~cur[line].bad /\ line' = line + 1
             /\ applied' = IF Variant = "EARLY" /\ line = 1 THEN Append(applied, cur[1].card) ELSE applied
             /\ UNCHANGED <<cards, mode, pos, cur, code, pc>>
Apply == /\ pc = "check" /\ line > Len(cur) /\ pc' = "next"
         /\ applied' = IF Variant = "EARLY" THEN applied ELSE Append(applied, cur[1].card)
         /\ UNCHANGED <<cards, mode, pos, line, cur, code>>
Error == /\ pc = "check" /\ (Unknown \/ (line <= Len(cur) /\ cur[line].bad))
         /\ IF mode = "strict" THEN code' = 6 /\ pc' = "end" /\ UNCHANGED pos
            ELSE /\ code' = code /\ pc' = "next"
                 /\ pos' = CASE Variant = "SKIPLINE" -> pos - Len(cur) + (IF Unknown THEN Len(cur) ELSE line)
                             [] Variant = "EAT" -> pos + 1
                             [] OTHER -> pos
         /\ UNCHANGED <<cards, mode, line, cur, applied>>
End == pc = "next" /\ pos > Len(Deck) /\ pc' = "end" /\ UNCHANGED <<cards, mode, pos, line, cur, applied, code>>
Next == ReadCard \/ CheckLine \/ Apply \/ Error \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Good(_, _)
Good(cs, i) == IF cs = <<>> THEN <<>> ELSE (IF Head(cs).err = 0 THEN <<i>> ELSE <<>>) \o Good(Tail(cs), i + 1)
Faulty == \E i \in DOMAIN cards : cards[i].err # 0
(* at any time what has been applied is a beginning of what has to be *)
Contained == LET G == Good(cards, 1) IN Len(applied) <= Len(G) /\ applied = SubSeq(G, 1, Len(applied))
Truthful == pc = "end" => /\ code = (IF mode = "strict" /\ Faulty THEN 6 ELSE 0)
                          /\ mode = "best" => applied = Good(cards, 1)
(* every unknown rest of a card is an error of its own: reported once per faulty card *)
Ends == <>(pc = "end")
=============================================================================
