------------------------------- MODULE MC_Rel -------------------------------
(* The algebra the relation checks rest on, explored exhaustively over small   *)
(* geometries: row spaces are canonical, and rigid body motion composes.       *)
(* WrongArm = TRUE forgets the sign of a lever arm and must break the law.     *)
EXTENDS Deck
CONSTANTS Size, WrongArm, MaxRows
VARIABLES d, rows, sp, ph
vars == <<d, rows, sp, ph>>
Coord == IF Size = 1 THEN {-1, 0, 2} ELSE {-3, -1, 0, 2}
X == Coord \X Coord \X Coord
Init == /\ d \in {[EmptyDeck EXCEPT !.grids = (1 :> <<0, 0, 0>>) @@ (2 :> a) @@ (3 :> b)] : a \in X, b \in X}
        /\ rows = {} /\ sp = {} /\ ph = "geo"
Row(m, s, q) == IF WrongArm /\ q = 2 THEN RowOf({<<s, q, 1>>, <<m, q, -1>>, <<m, 6, Minus(d.grids[s], d.grids[m])[1]>>, <<m, 4, Minus(d.grids[s], d.grids[m])[3]>>}) ELSE RigidRow(d, m, s, q)
Rigid(m, s) == {Row(m, s, q) : q \in 1..6}
Compose == Space(Rigid(1, 2) \cup Rigid(2, 3)) = Space(Rigid(1, 2) \cup Rigid(1, 3))
Reverse == Space(Rigid(1, 2)) = Space(Rigid(2, 1))
(* rows added one at a time, and combinations of rows already there *)
Add == /\ Cardinality(rows) < MaxRows /\ ph' = "rows"
       /\ \E m \in {1, 2}, q \in {1, 2, 5} : m < 3 /\ rows' = rows \cup {Row(m, 3, q)}
       /\ sp' = Space(rows') /\ UNCHANGED d
Mix == /\ rows # {} /\ \E a, b \in rows : \E k \in {-2, 1, 3} : sp' = Space(rows \cup {Comb(1, a, k, b)} \cup {Comb(2, a, 0, a)})
       /\ ph' = "mix" /\ UNCHANGED <<d, rows>>
Next == Add \/ Mix
Spec == Init /\ [][Next]_vars
Canonical == rows # {} => sp = Space(rows)
Idempotent == Space(sp) = sp
(* a rotation of the master moves the slave at right angles to the arm *)
Col(r, c) == IF c \in DOMAIN r THEN r[c] ELSE 0
Isometry == \A k \in 4..6 : LET r == Minus(d.grids[2], d.grids[1]) IN
              r[1] * Col(Row(1, 2, 1), <<1, k>>) + r[2] * Col(Row(1, 2, 2), <<1, k>>) + r[3] * Col(Row(1, 2, 3), <<1, k>>) = 0
Laws == ph = "geo" => Compose /\ Reverse /\ Isometry
=============================================================================
