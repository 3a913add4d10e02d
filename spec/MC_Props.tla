------------------------------ MODULE MC_Props ------------------------------
(* From cards in any order to the assignments written: element sets keyed by *)
(* property, split by the offset of their cells, isotropic materials of the  *)
(* laminates replaced by orthotropic copies. Whatever the order, every       *)
(* element gets exactly what Props says.                                     *)
EXTENDS Props
CONSTANT Variant, NE, Offs
VARIABLES todo, D, sets, cells, mats, stage, out
vars == <<todo, D, sets, cells, mats, stage, out>>
M1(m, e) == [k |-> "MAT1", mid |-> m, e |-> <<e, 1>>, nu |-> <<1, 4>>, g |-> Blank, rho |-> Blank, ge |-> Blank]
Sh(p, m, t) == [k |-> "PSHELL", pid |-> p, mid |-> m, t |-> <<t, 1>>]
La(p, m, t) == [k |-> "PCOMP", pid |-> p, z0 |-> Blank, lam |-> "", plies |-> <<[mid |-> m, t |-> <<t, 1>>, th |-> Blank]>>]
El(i, p, o) == [k |-> "EL", id |-> i, t |-> "CTRIA3", n |-> <<i, i + 1, i + 2>>, off |-> <<o, 1>>, pid |-> p, g0 |-> 0, v |-> <<1, 0, 0>>]
Decks == {{M1(1, 10), M1(2, 20), p1, p2} \cup {El(i, es[i][1], es[i][2]) : i \in 1..NE} :
            p1 \in {Sh(1, 1, 3), La(1, 1, 3)}, p2 \in {Sh(2, 1, 5), La(2, 2, 5)}, es \in [1..NE -> {1, 2} \X Offs]}
(* sets: property -> card; cells: <<property, element, offset>>; mats: id -> kind of material *)
Init == /\ todo \in Decks /\ D = todo /\ sets = <<>> /\ cells = {} /\ mats = <<>> /\ stage = "read" /\ out = {}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Order(c) == CASE c.k = "EL" -> 1 [] c.k = "MAT1" -> 3 [] OTHER -> 2
Read == /\ stage = "read" /\ todo # {} /\ UNCHANGED <<D, stage, out>>
        /\ \E c \in todo : todo' = todo \ {c} /\
             CASE c.k = "MAT1" -> mats' = Put(mats, c.mid, "iso") /\ UNCHANGED <<sets, cells>>
               [] c.k \in PropKinds -> sets' = Put(sets, <<c.pid, Zero>>, [p |-> c, els |-> {e.id : e \in {e \in cells : e.pid = c.pid}}, ply |-> "card"]) /\ UNCHANGED <<cells, mats>>
               [] c.k = "EL" -> /\ cells' = cells \cup {c} /\ UNCHANGED mats
                                /\ sets' = IF <<c.pid, Zero>> \in DOMAIN sets THEN [sets EXCEPT ![<<c.pid, Zero>>].els = @ \cup {c.id}] ELSE sets
Cell(i) == CHOOSE e \in cells : e.id = i
NonZero(s) == \E i \in s.els : Cell(i).off # Zero
(* one set per property and offset *)
Split == /\ stage = "read" /\ todo = {} /\ stage' = "split" /\ UNCHANGED <<todo, D, cells, mats, out>>
         /\ LET ks == {k \in DOMAIN sets : NonZero(sets[k])}
                keep == {k \in DOMAIN sets : k \notin ks}
                offs(k) == {Cell(i).off : i \in sets[k].els}
                \* the wrong variant: a cell goes to the first set made for its offset, whatever the property
                home(k, o) == IF Variant = "merge" /\ \E q \in ks : q[1] < k[1] /\ o \in offs(q) THEN CHOOSE q \in ks : o \in offs(q) /\ \A r \in ks : o \in offs(r) => q[1] <= r[1] ELSE k
                new == {<<k[1], o>> : k \in ks, o \in UNION {offs(k) : k \in ks}} IN
            sets' = [x \in keep \cup {x \in new : \E k \in ks : x[1] = k[1] /\ x[2] \in offs(k) /\ home(k, x[2]) = k} |->
                       IF x \in keep THEN sets[x]
                       ELSE LET k == CHOOSE k \in ks : k[1] = x[1] IN
                            [sets[k] EXCEPT !.els = UNION {{i \in sets[q].els : Cell(i).off = x[2] /\ home(q, x[2]) = k} : q \in ks}]]
Ortho == /\ stage = "split" /\ stage' = "ortho" /\ UNCHANGED <<todo, D, cells, out>>
         /\ LET lam == {k \in DOMAIN sets : sets[k].p.k = "PCOMP"} IN
            IF Variant = "inplace"
            THEN mats' = [m \in DOMAIN mats |-> IF \E k \in lam : sets[k].p.plies[1].mid = m THEN "orth" ELSE mats[m]] /\ UNCHANGED sets
            ELSE sets' = [k \in DOMAIN sets |-> IF k \in lam THEN [sets[k] EXCEPT !.ply = "copy"] ELSE sets[k]] /\ UNCHANGED mats
MatW(m) == IF mats[m] = "orth" THEN IsoAsOrth(D, MatCard(D, m)) ELSE Iso(D, MatCard(D, m))
Written(k, i) ==
  LET s == sets[k] p == s.p off == k[2] IN
  [n |-> <<i, i + 1, i + 2>>, mod |-> <<Formulation(p)>>, beam |-> <<>>, coque |-> ShellOf(p, off), ori |-> <<>>,
   mat |-> IF p.k = "PSHELL" THEN <<MatW(p.mid)>>
           ELSE <<[f |-> "COMP", plies |-> [j \in 1..Len(Plies(p)) |-> [t |-> Plies(p)[j].t, th |-> Plies(p)[j].th,
                     m |-> IF s.ply = "copy" THEN IsoAsOrth(D, MatCard(D, Plies(p)[j].mid)) ELSE MatW(Plies(p)[j].mid)]]]>>]
Write == /\ stage = "ortho" /\ stage' = "done" /\ UNCHANGED <<todo, D, sets, cells, mats>>
         /\ out' = {<<k, Written(k, i)>> : k \in DOMAIN sets, i \in {e.id : e \in cells}} \cap UNION {{<<k, Written(k, i)>> : i \in sets[k].els} : k \in DOMAIN sets}
Next == Read \/ Split \/ Ortho \/ Write
Spec == Init /\ [][Next]_vars
Faithful == stage = "done" => /\ {w[2] : w \in out} = {Den(D, e) : e \in Els(D)}
                              /\ Cardinality(out) = Cardinality(Els(D))
=============================================================================
