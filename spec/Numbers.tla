------------------------------ MODULE Numbers ------------------------------
(* What a Nastran real field and a Nastran integer list denote.               *)
(* A spelling of a real is a sequence of characters; its value is             *)
(* [s, m, e]: sign, significant digits (no leading or trailing zero), power   *)
(* of ten of the last digit.  Denote gives it from the parts of the spelling, *)
(* Scan reads it character by character.                                      *)
EXTENDS Integers, Sequences, FiniteSets
CharDigit == [d \in {"0","1","2","3","4","5","6","7","8","9"} |->
   CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
DigitChar(n) == CHOOSE c \in DOMAIN CharDigit : CharDigit[c] = n
RECURSIVE StripL(_), StripR(_), Num(_)
StripL(m) == IF m # <<>> /\ m[1] = 0 THEN StripL(Tail(m)) ELSE m
StripR(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN StripR(SubSeq(m, 1, Len(m) - 1)) ELSE m
Num(ds) == IF ds = <<>> THEN 0 ELSE 10 * Num(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)]
Zero == [s |-> 1, m |-> <<>>, e |-> 0]
Normal(s, digits, e) == LET a == StripL(digits) b == StripR(a) IN IF b = <<>> THEN Zero ELSE [s |-> s, m |-> b, e |-> e + (Len(a) - Len(b))]

(* r: sign in {"", "+", "-"}, ip, fp digit sequences, mk in {"", "E", "e", "D", "d", "bare"}, es sign, ed digits *)
Chars(ds) == [i \in DOMAIN ds |-> DigitChar(ds[i])]
Sg(c) == IF c = "" THEN <<>> ELSE <<c>>
Spell(r) == Sg(r.sign) \o Chars(r.ip) \o <<".">> \o Chars(r.fp) \o
            (IF r.mk = "" THEN <<>> ELSE (IF r.mk = "bare" THEN <<>> ELSE <<r.mk>>) \o Sg(r.es) \o Chars(r.ed))
Legal(r) == /\ r.ip \o r.fp # <<>>
            /\ (r.mk = "" <=> r.ed = <<>>) /\ (r.mk = "" => r.es = "") /\ (r.mk = "bare" => r.es # "")
Denote(r) == Normal(IF r.sign = "-" THEN -1 ELSE 1, r.ip \o r.fp, (IF r.es = "-" THEN -1 ELSE 1) * Num(r.ed) - Len(r.fp))

Start == [st |-> "sign", s |-> 1, m |-> <<>>, f |-> 0, es |-> 1, ed |-> <<>>]
Step(q, c) ==
  CASE c \in DOMAIN CharDigit /\ q.st \in {"sign", "int"} -> [q EXCEPT !.st = "int", !.m = Append(@, CharDigit[c])]
    [] c \in DOMAIN CharDigit /\ q.st = "frac" -> [q EXCEPT !.m = Append(@, CharDigit[c]), !.f = @ + 1]
    [] c \in DOMAIN CharDigit /\ q.st \in {"mark", "exp"} -> [q EXCEPT !.st = "exp", !.ed = Append(@, CharDigit[c])]
    [] c = "." -> [q EXCEPT !.st = "frac"]
    [] c \in {"E", "e", "D", "d"} -> [q EXCEPT !.st = "mark"]
    [] c \in {"+", "-"} /\ q.st = "sign" -> [q EXCEPT !.st = "int", !.s = IF c = "-" THEN -1 ELSE 1]
    [] OTHER -> [q EXCEPT !.st = "exp", !.es = IF c = "-" THEN -1 ELSE 1]
RECURSIVE Run(_, _)
Run(q, cs) == IF cs = <<>> THEN q ELSE Run(Step(q, cs[1]), Tail(cs))
Val(q) == Normal(q.s, q.m, q.es * Num(q.ed) - q.f)
Value(cs) == Val(Run(Start, cs))

(* integer lists: tokens [k |-> "int", v], [k |-> "thru"], [k |-> "by"] *)
(* an item: a number, a THRU b, a THRU b BY s (the upper bound always belongs to the range) *)
Tok(k, v) == [k |-> k, v |-> v]
ItemToks(i) == CASE i.k = "one" -> <<Tok("int", i.a)>>
                 [] i.k = "thru" -> <<Tok("int", i.a), Tok("thru", 0), Tok("int", i.b)>>
                 [] i.k = "by" -> <<Tok("int", i.a), Tok("thru", 0), Tok("int", i.b), Tok("by", 0), Tok("int", i.s)>>
ItemSet(i) == CASE i.k = "one" -> {i.a} [] i.k = "thru" -> i.a..i.b
                [] i.k = "by" -> {n \in i.a..i.b : (n - i.a) % i.s = 0} \cup {i.b}
RECURSIVE Toks(_), ItemsSet(_)
Toks(is) == IF is = <<>> THEN <<>> ELSE ItemToks(is[1]) \o Toks(Tail(is))
ItemsSet(is) == IF is = <<>> THEN {} ELSE ItemSet(is[1]) \cup ItemsSet(Tail(is))
(* reader of a list: closed = numbers settled, from/to = last number or open range *)
LStart == [closed |-> {}, has |-> FALSE, a |-> 0, rng |-> FALSE, b |-> 0, want |-> "any"]
Settle(q) == IF ~q.has THEN q.closed ELSE q.closed \cup (IF q.rng THEN q.a..q.b ELSE {q.a})
LStep(q, t) ==
  CASE t.k = "thru" -> [q EXCEPT !.want = "to"]
    [] t.k = "by" -> [q EXCEPT !.want = "step"]
    [] q.want = "to" -> [q EXCEPT !.rng = TRUE, !.b = t.v, !.want = "any"]
    [] q.want = "step" -> [LStart EXCEPT !.closed = q.closed \cup {n \in q.a..q.b : (n - q.a) % t.v = 0} \cup {q.b}]
    [] OTHER -> [closed |-> Settle(q), has |-> TRUE, a |-> t.v, rng |-> FALSE, b |-> 0, want |-> "any"]
RECURSIVE LRun(_, _)
LRun(q, ts) == IF ts = <<>> THEN q ELSE LRun(LStep(q, ts[1]), Tail(ts))
ListSet(ts) == Settle(LRun(LStart, ts))
=============================================================================
