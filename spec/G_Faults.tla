------------------------------ MODULE G_Faults ------------------------------
(* Decks of G_Deck with faulty cards put in anywhere in the bulk data. *)
EXTENDS G_Deck, Faults
VARIABLES todo, mode
vf == <<vars, todo, mode>>
Combs == {hist[i].sid : i \in {j \in DOMAIN hist : hist[j].k = "LOAD"}}
Fill(x) == CASE x = "@load" -> ToString(IF Combs = {} THEN 39 ELSE R(Combs)) [] x = "@sid" -> ToString(R(LoadS)) [] x = "@spc" -> ToString(R({1, 2})) [] x = "@mpc" -> ToString(R(MpcS))
             [] x = "@g" -> ToString(Id(1)) [] x = "@h" -> ToString(Id(2)) [] x = "@new" -> ToString(700000 + R(1..90000))
             [] x \in {"@a", "@b", "@c"} -> IF cfg.shl THEN ToString(Id(CASE x = "@a" -> 21 [] x = "@b" -> 22 [] x = "@c" -> 24)) ELSE ToString(Id(CASE x = "@a" -> 1 [] x = "@b" -> 2 [] x = "@c" -> 3))
             [] x = "@el" -> ToString(IF cfg.shl THEN Id(31) ELSE Id(1))
             [] OTHER -> x
Fault(kind, kw, f, w) == [ev |-> "card", k |-> "FAULT", kind |-> kind, kw |-> kw, f |-> f, lay |-> w]
Unknown(n) == Fault("unknown", R({"ZZCARD", "GRIDX", "CFOO", "MAT99", "XPLOAD", "PBARZ"}), [i \in 1..R({1, 3, 8, 11, 20}) |-> R({"1", "2.5", "ABC", "", "FORCE", "99"})], R({"short", "free"}))
SpoilChoices == {<<i, j, how>> \in UNION {UNION {{<<i, j, h>> : h \in Spoils(Templates[i], j)} : j \in DOMAIN Templates[i].f} : i \in DOMAIN Templates} : TRUE}
Bad(c) == LET s == Spoilt(Templates[c[1]], c[2], c[3]) IN
          Fault(c[3], s.kw, [i \in DOMAIN s.f |-> Fill(s.f[i][2])], R({"short", "free"}))
BrokenCard(n) == LET t == Broken[R(DOMAIN Broken)] IN Fault("broken", t.kw, [i \in DOMAIN t.f |-> Fill(t.f[i][2])], R({"short", "free"}))
FirstBulk == CHOOSE i \in 1..(Len(hist) + 1) : (i = Len(hist) + 1 \/ hist[i].k \notin {"GLOB", "SUB"}) /\ \A j \in 1..(i - 1) : hist[j].k \in {"GLOB", "SUB"}
InitF == Init /\ todo = -1 /\ mode = "best"
More == (Start \/ GlobSel \/ AddSub \/ Mesh \/ Sets \/ (~Ready /\ AddCard)) /\ UNCHANGED <<todo, mode>>
Chosen == /\ pc = "cards" /\ Ready /\ todo = -1 /\ UNCHANGED vars
          /\ todo' = R({0, 1, 1, 2, 3, 4}) /\ mode' = R({"best", "best", "best", "mesh", "default", "strict"})
Inject == /\ todo > 0 /\ todo' = todo - 1 /\ UNCHANGED <<d, pc, cfg, dep, mode>>
          /\ \E f \in {IF Dice(4) = 1 THEN Unknown(todo) ELSE IF Dice(4) = 1 THEN BrokenCard(todo) ELSE Bad(R(SpoilChoices))} : \E p \in {R(FirstBulk..(Len(hist) + 1))} :
               hist' = InsertAt(hist, p, f)
Excess == /\ todo = 0 /\ todo' = -2 /\ UNCHANGED <<d, pc, cfg, dep, mode>>
          /\ LET X == {i \in DOMAIN hist : hist[i].k \in {"FORCE", "MOMENT"}} IN
             IF X # {} /\ Dice(4) = 1 THEN \E i \in {R(X)} : hist' = [hist EXCEPT ![i] = @ @@ [excess |-> 1]] ELSE UNCHANGED hist
Done == /\ todo = -2 /\ todo' = -3 /\ UNCHANGED <<vars, mode>>
        /\ PrintT("@@" \o ToJson([mode |-> mode, hist |-> hist]))
NextF == (todo = -1 /\ More) \/ Chosen \/ Inject \/ Excess \/ Done
SpecF == InitF /\ [][NextF]_vf
=============================================================================
