------------------------------- MODULE Layout -------------------------------
(* Bulk data cards and their physical lines.  A card is a keyword and a list   *)
(* of field values (0 = blank).  Write lays a card out as physical lines;      *)
(* Scan is the reader of a deck, one physical line at a time.                  *)
EXTENDS Integers, Sequences
CONSTANTS WShort, WLong          \* data fields of a physical line: 8 and 4 in Nastran
Width(fmt) == IF fmt = "long" THEN WLong ELSE WShort
RECURSIVE Trim(_)
Trim(f) == IF f # <<>> /\ f[Len(f)] = 0 THEN Trim(SubSeq(f, 1, Len(f) - 1)) ELSE f
Pad(f, n) == [i \in 1..(IF n > Len(f) THEN n ELSE Len(f)) |-> IF i <= Len(f) THEN f[i] ELSE 0]
Min(a, b) == IF a < b THEN a ELSE b
(* lay: fmt, cont in {"auto", "plus", "mark"}, omit (trailing blanks left out), inner (comment lines between lines) *)
(* short/long and long/short cards alternate the two fixed formats from line to line                              *)
FmtOf(lay, i) == CASE lay.fmt = "mixed" -> IF i % 2 = 1 THEN "short" ELSE "long"
                   [] lay.fmt = "mixed2" -> IF i % 2 = 1 THEN "long" ELSE "short"
                   [] OTHER -> lay.fmt
LHead(lay, i) == IF i = 1 THEN "kw" ELSE IF lay.cont = "auto" THEN "auto" ELSE "plus"
Comment == [k |-> "comment", kw |-> "", head |-> "", fmt |-> "", cells |-> <<>>, mark |-> FALSE]
RECURSIVE WriteFrom(_, _, _, _)
WriteFrom(c, lay, i, f) ==
  LET w == Width(FmtOf(lay, i))
      x == SubSeq(f, 1, Min(w, Len(f)))
      rest == SubSeq(f, w + 1, Len(f))
      line == [k |-> "text", kw |-> c.kw, head |-> LHead(lay, i), fmt |-> FmtOf(lay, i),
               cells |-> IF lay.omit THEN Trim(x) ELSE Pad(x, w), mark |-> lay.cont = "mark" /\ rest # <<>>]
  IN IF f = <<>> /\ i > 1 THEN <<>>
     ELSE (IF i > 1 /\ lay.inner THEN <<Comment>> ELSE <<>>) \o <<line>> \o WriteFrom(c, lay, i + 1, rest)
Write(c, lay) == WriteFrom(c, lay, 1, c.f)

(* the reader: cards finished, card being read, and how many cells its lines owe *)
Empty == [done |-> <<>>, open |-> FALSE, kw |-> "", f |-> <<>>, at |-> 0]
Flush(r) == IF r.open THEN [r EXCEPT !.done = Append(@, [kw |-> r.kw, f |-> Trim(r.f)]), !.open = FALSE] ELSE r
Scan(r, l) ==
  CASE l.k # "text" -> r
    [] l.k = "text" /\ l.head = "kw" -> [Flush(r) EXCEPT !.open = TRUE, !.kw = l.kw, !.f = l.cells, !.at = Width(l.fmt)]
    [] OTHER -> [r EXCEPT !.f = Pad(@, r.at) \o l.cells, !.at = r.at + Width(l.fmt)]
Result(r) == Flush(r).done
=============================================================================
