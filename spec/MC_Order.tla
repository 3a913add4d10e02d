------------------------------ MODULE MC_Order ------------------------------
(* A reader that gives every identifier a place when it is first mentioned     *)
(* (reserved) and fills it when it is defined, collects what refers to sets     *)
(* and resolves it at the end; cards come in every order.                       *)
(* Variant: "" right; "eager" resolves what a card refers to when it is read;   *)
(* "twice" gives an identifier that is already reserved a second place;         *)
(* "default" takes a default only for the cards that come after it.             *)
EXTENDS Order, TLC
CONSTANTS Variant, Big
VARIABLES left, place, val, said, sets, inc, picks, dflt, out
vars == <<left, place, val, said, sets, inc, picks, dflt, out>>
Cards == {[k |-> "def", id |-> 1, x |-> 5], [k |-> "def", id |-> 2, x |-> 0], [k |-> "use", of |-> 1, what |-> 7], [k |-> "use", of |-> 2, what |-> 8],
          [k |-> "dflt", v |-> 3], [k |-> "put", set |-> 1, v |-> 4], [k |-> "add", set |-> 2, of |-> 1], [k |-> "pick", set |-> 2]}
         \cup (IF Big THEN {[k |-> "def", id |-> 3, x |-> 0], [k |-> "use", of |-> 3, what |-> 9], [k |-> "put", set |-> 3, v |-> 6], [k |-> "add", set |-> 1, of |-> 3]} ELSE {})
(* every bag of the cards above *)
Init == /\ left \in SUBSET Cards /\ out = [bag |-> left, done |-> FALSE, m |-> {}]
        /\ place = <<>> /\ val = <<>> /\ said = {} /\ sets = {} /\ inc = {} /\ picks = {} /\ dflt = 0
At(id) == CHOOSE i \in DOMAIN place : place[i] = id
Known(id) == \E i \in DOMAIN place : place[i] = id
Define(c) == LET v == IF c.x = 0 /\ Variant = "default" THEN dflt ELSE c.x IN
             IF Known(c.id) /\ Variant # "twice"
             THEN place' = place /\ val' = [val EXCEPT ![At(c.id)] = <<v>>]
             ELSE place' = Append(place, c.id) /\ val' = Append(val, <<v>>)
(* what is said of a grid hangs on its place *)
Use(c) == IF Known(c.of) THEN place' = place /\ val' = val /\ said' = said \cup {<<At(c.of), c.what>>}
          ELSE IF Variant = "eager" THEN UNCHANGED <<place, val, said>>
          ELSE place' = Append(place, c.of) /\ val' = Append(val, <<>>) /\ said' = said \cup {<<Len(place) + 1, c.what>>}
ReadCard == \E c \in left :
  /\ left' = left \ {c} /\ UNCHANGED out
  /\ CASE c.k = "def" -> Define(c) /\ UNCHANGED <<said, sets, inc, picks, dflt>>
       [] c.k = "use" -> Use(c) /\ UNCHANGED <<sets, inc, picks, dflt>>
       [] c.k = "dflt" -> dflt' = c.v /\ UNCHANGED <<place, val, said, sets, inc, picks>>
       [] c.k = "put" -> sets' = sets \cup {<<c.set, c.v>>} /\ UNCHANGED <<place, val, said, inc, picks, dflt>>
       [] c.k = "add" -> inc' = inc \cup {<<c.set, c.of>>} /\ UNCHANGED <<place, val, said, sets, picks, dflt>>
       [] c.k = "pick" -> picks' = picks \cup {c.set} /\ UNCHANGED <<place, val, said, sets, inc, dflt>>
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {p[2] : p \in {q \in inc : q[1] \in S}} IN IF T = S THEN S ELSE Reach(T)
Filled == {i \in DOMAIN place : val[i] # <<>>}
Resolve == /\ left = {} /\ ~out.done /\ UNCHANGED <<left, place, val, said, sets, inc, picks, dflt>>
           /\ out' = [out EXCEPT !.done = TRUE, !.m =
                {<<"grid", place[i], IF val[i][1] = 0 /\ Variant # "default" THEN dflt ELSE val[i][1]>> : i \in Filled}
                \cup {<<"said", place[s[1]], s[2]>> : s \in {t \in said : t[1] \in Filled}}
                \cup {<<"set", p[2]>> : p \in {q \in sets : q[1] \in Reach(picks)}}]
Next == ReadCard \/ Resolve
Spec == Init /\ [][Next]_vars
OrderFree == out.done => out.m = Meaning(out.bag)
=============================================================================
