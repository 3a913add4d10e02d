--------------------------- MODULE G_LocalFrames ---------------------------
(* Random decks whose loads and constraints are given in local systems. *)
EXTENDS LocalFrames, Json, Randomization, SequencesExt
VARIABLES hist, pc, cfg
vars == <<hist, pc, cfg>>
G == INSTANCE G_MeshIO
R(S) == RandomElement(S)
Card(k) == [ev |-> "card", k |-> k]
Grids_ == {e \in RangeOf(hist) : e.k = "GRID"}
Systems == {e.id : e \in {f \in RangeOf(hist) : (f.k = "CS" /\ f.t \in {"R", "C"}) \/ f.k = "CS1"}}
Ok(D, c, g) == LET A == AxesAt(D, c, g) IN A.d \in {1, 5, 25}
Init == hist = <<>> /\ pc = "start" /\ cfg = [nf |-> 0]
Start == /\ pc = "start" /\ pc' = "frames" /\ UNCHANGED hist
         /\ cfg' = [nf |-> R({1, 1, 2, 3}), ng |-> R(3..6), ne |-> 0, mul |-> R({1, 7, 113}), off |-> R({0, 5, 300}), grd |-> R(1..4), acts |-> R(2..8), ps |-> R(0..2)]
Mesh == pc \in {"frames", "grids"} /\ (G!Frame \/ G!Grid)
(* displacement systems and permanent constraints of the grid points *)
Cds == /\ pc = "els" /\ pc' = "acts"
       /\ LET D == [i \in DOMAIN hist |-> IF hist[i].k = "GRDSET" THEN [hist[i] EXCEPT !.cd = R({0} \cup Systems)] ELSE hist[i]]
              gid == {e.id : e \in {e \in RangeOf(D) : e.k = "GRDSET"}} IN
          \E base \in {TLCEval([i \in DOMAIN D |-> IF D[i].k # "GRID" THEN D[i]
                                           ELSE D[i] @@ [cd |-> R({0, -1} \cup Systems), ps |-> IF cfg.ps # 0 THEN <<>> ELSE R({<<>>, <<1>>, <<2, 3>>, <<1, 2, 3, 4, 5, 6>>})]])} :
             \* a grid point whose axes cannot be said in whole numbers goes back to the global system
             hist' = [i \in DOMAIN base |-> IF base[i].k = "GRID" /\ ~Ok(base, CdOf(base, base[i].id), base[i].id) THEN [base[i] EXCEPT !.cd = 0] ELSE base[i]]
       /\ UNCHANGED cfg
Gid == {e.id : e \in Grids_}
(* components already said: by the grid cards and by the constraint cards of a set *)
PsOf(g) == RangeOf(GridOf(hist, g).ps)
Held(g) == PsOf(g) \cup UNION {RangeOf(e.c) : e \in {e \in RangeOf(hist) : e.k = "SPC" /\ e.g = g}} \cup UNION {RangeOf(e.c) : e \in {e \in RangeOf(hist) : e.k = "SPC1" /\ g \in RangeOf(e.gs)}}
Comps == {<<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<1, 2>>, <<1, 2, 3>>, <<4, 5, 6>>, <<2, 6>>, <<1, 2, 3, 4, 5, 6>>, <<3, 5>>}
Push == \E k \in {R({"FORCE", "MOMENT"})} : \E g \in {R(Gid)} : \E c \in {R({0} \cup Systems)} : \E n \in {<<R(-3..3), R(-3..3), R(-3..3)>>} : \E f \in {R({1, 2, -1, 5})} : \E sid \in {R({3, 3, 3, 4})} :
          IF Ok(hist, c, g) /\ n # Zero3 THEN hist' = Append(hist, Card(k) @@ [sid |-> sid, g |-> g, cid |-> c, f |-> f, n |-> n]) ELSE UNCHANGED hist
Block == \E g \in {R(Gid)} : \E c \in {R(Comps)} : \E v \in {R({0, 0, 1, -2, 5})} : \E sid \in {R({1, 1, 1, 2})} :
          IF RangeOf(c) \cap Held(g) = {}
          THEN hist' = Append(hist, Card("SPC") @@ [sid |-> sid, g |-> g, c |-> c, v |-> v]) ELSE UNCHANGED hist
Block1 == \E gs \in {R(SUBSET Gid)} : \E c \in {R(Comps)} : \E sid \in {R({1, 1, 1, 2})} :
          IF gs # {} /\ \A g \in gs : RangeOf(c) \cap (Held(g) \ PsOf(g)) = {}
          THEN hist' = Append(hist, Card("SPC1") @@ [sid |-> sid, gs |-> SetToSeq(gs), c |-> c]) ELSE UNCHANGED hist
Relate == \E n \in {R(2..4)} : \E t \in {TLCEval([i \in 1..n |-> <<R(Gid), R(1..6), R({1, -1, 2, 3, -5})>>])} : \E sid \in {R({2, 2, 5})} :
          IF (\A i, j \in 1..n : i # j => <<t[i][1], t[i][2]>> # <<t[j][1], t[j][2]>>)
             /\ (\A e \in CardsK(hist, "MPC") : <<e.t[1][1], e.t[1][2]>> # <<t[1][1], t[1][2]>>)
          THEN hist' = Append(hist, Card("MPC") @@ [sid |-> sid, t |-> t]) ELSE UNCHANGED hist
Act == /\ pc = "acts" /\ UNCHANGED cfg
       /\ IF Cardinality({i \in DOMAIN hist : hist[i].k \in {"FORCE", "MOMENT", "SPC", "SPC1", "MPC"}}) >= cfg.acts THEN UNCHANGED hist /\ pc' = "mix"
          ELSE UNCHANGED pc /\ \E w \in {R(1..6)} : CASE w <= 2 -> Push [] w = 3 -> Block [] w = 4 -> Block1 [] OTHER -> Relate
Shuffle == pc = "mix" /\ pc' = "done" /\ UNCHANGED cfg /\ hist' = G!Mix(G!Mix(hist))
Done == pc = "done" /\ pc' = "end" /\ UNCHANGED <<hist, cfg>> /\ PrintT("@@" \o ToJson(hist))
Next == Start \/ Mesh \/ Cds \/ Act \/ Shuffle \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
