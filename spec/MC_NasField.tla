---------------------------- MODULE MC_NasField ----------------------------
(* The writer of fields, step by step, for every short number.                *)
(* Wrong: "none", "sign" (no room for the sign), "expo" (the sign of the power *)
(* is that of the number), "trim" (the zeros of the integer part go as well)   *)
EXTENDS NasField, TLC
CONSTANTS W, Ds, N, X, Wrong
VARIABLES v, st, ip, fp, out
vars == <<v, st, ip, fp, out>>
Ms == {m \in UNION {[1..k -> Ds] : k \in 1..N} : m[1] # 0 /\ m[Len(m)] # 0}
Init == /\ v \in {[s |-> s, m |-> m, e |-> x - Len(m) + 1] : s \in {-1, 1}, m \in Ms, x \in (0 - X)..X}
        /\ st = "value" /\ ip = <<>> /\ fp = <<>> /\ out = <<>>
Room == IF Wrong = "sign" THEN Keep([v EXCEPT !.s = 1], W) ELSE Keep(v, W)
Round == /\ st = "value" /\ st' = "rounded"
         /\ LET ds == Digits(Rounded(v.m, Room)) n == Len(ds) - (Room - 1) IN ip' = First(ds, n) /\ fp' = SubSeq(ds, n + 1, Len(ds))
         /\ UNCHANGED <<v, out>>
Trim == /\ st = "rounded" /\ st' = "trimmed" /\ fp' = StripR(fp)
        /\ ip' = (IF Wrong = "trim" /\ StripR(fp) = <<>> THEN StripR(ip) ELSE ip) /\ UNCHANGED <<v, out>>
Emit == /\ st = "trimmed" /\ st' = "done" /\ UNCHANGED <<v, ip, fp>>
        /\ LET neg == IF Wrong = "expo" THEN v.s < 0 ELSE Pow(v) < 0
           IN out' = Sg(IF v.s < 0 THEN "-" ELSE "") \o Chars(ip) \o <<".">> \o Chars(fp) \o <<IF neg THEN "-" ELSE "+">> \o Chars(Digits(Abs(Pow(v))))
Next == Round \/ Trim \/ Emit
Spec == Init /\ [][Next]_vars
Fits == Len(out) <= W
Kept == st = "done" => Near(Value(out), v, Keep(v, W))
===========================================================================
