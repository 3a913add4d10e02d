----------------------------- MODULE MC_Numbers -----------------------------
(* Every short spelling and every short list: reading gives what is denoted.  *)
(* Bare = FALSE forgets exponents without a letter.                           *)
EXTENDS Numbers
CONSTANTS Digits, NI, NF, NE, Top, NItems, Bare
VARIABLES r, cs, q, is, ts, lq
vars == <<r, cs, q, is, ts, lq>>
Up(n) == UNION {[1..k -> Digits] : k \in 0..n}
Reals == {x \in [sign : {"", "+", "-"}, ip : Up(NI), fp : Up(NF), mk : {"", "E", "d", "bare"}, es : {"", "+", "-"}, ed : Up(NE)] : Legal(x)}
Items == {x \in [k : {"one", "thru", "by"}, a : 1..Top, b : 1..Top, s : 1..3] :
            /\ x.k = "one" => x.b = x.a /\ x.s = 1
            /\ x.k = "thru" => x.s = 1 /\ x.a < x.b
            /\ x.k = "by" => x.a < x.b}
None == [sign |-> "", ip |-> <<0>>, fp |-> <<>>, mk |-> "", es |-> "", ed |-> <<>>]
Init == \/ r \in Reals /\ cs = Spell(r) /\ q = Start /\ is = <<>> /\ ts = <<>> /\ lq = LStart
        \/ r = None /\ cs = Spell(None) /\ q = Start /\ is \in [1..NItems -> Items] /\ ts = Toks(is) /\ lq = LStart
Wrong(x, c) == IF c \in {"+", "-"} /\ x.st = "frac" THEN x ELSE Step(x, c)
ReadChar == /\ cs # <<>> /\ q' = (IF Bare THEN Step(q, cs[1]) ELSE Wrong(q, cs[1])) /\ cs' = Tail(cs) /\ UNCHANGED <<r, is, ts, lq>>
ReadTok == /\ ts # <<>> /\ cs = <<>> /\ lq' = LStep(lq, ts[1]) /\ ts' = Tail(ts) /\ UNCHANGED <<r, cs, q, is>>
Next == ReadChar \/ ReadTok
Spec == Init /\ [][Next]_vars
RealOk == cs = <<>> => Val(q) = Denote(r)
ListOk == ts = <<>> => Settle(lq) = ItemsSet(is)
=============================================================================
