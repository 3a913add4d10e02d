------------------------------ MODULE G_MeshIO ------------------------------
(* Random meshes: frames, grid points, elements, in a random card order. *)
EXTENDS MeshIO, Json, Randomization, SequencesExt
VARIABLES hist, pc, cfg
vars == <<hist, pc, cfg>>
R(S) == RandomElement(S)
Mix(q) == LET L == Len(q) o == R(0..(L - 1)) r == R({TRUE, FALSE})
              st == R({x \in 1..L : \A f \in 2..L : ~(L % f = 0 /\ x % f = 0)}) IN
          [i \in 1..L |-> LET j == ((i * st + o) % L) + 1 IN IF r THEN q[L + 1 - j] ELSE q[j]]
Dirs == {<<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>>, <<3,4,0>>, <<-4,3,0>>, <<0,4,-3>>, <<0,3,4>>, <<4,0,3>>, <<3,0,-4>>}
Card(k) == [ev |-> "card", k |-> k]
Frames_ == {e \in RangeOf(hist) : e.k \in {"CS", "CS1"}}
Rects == {0} \cup {e.id : e \in {f \in Frames_ : f.k = "CS" /\ f.t = "R"}}
Init == hist = <<>> /\ pc = "start" /\ cfg = [nf |-> 0]
Start == /\ pc = "start" /\ pc' = "frames" /\ UNCHANGED hist
         /\ cfg' = [nf |-> R({0, 0, 1, 2, 3}), ng |-> R({3, 6, 10, 15, 22}), ne |-> R(1..5), mul |-> R({1, 1, 7, 113, 999983}), off |-> R({0, 5, 300}), grd |-> R(1..4)]
Id(k) == cfg.off + cfg.mul * k
Frame ==
  /\ pc = "frames" /\ UNCHANGED cfg
  /\ IF Cardinality(Frames_) >= cfg.nf THEN UNCHANGED hist /\ pc' = "grids"
     ELSE /\ UNCHANGED pc
          /\ \E t \in {R({"R", "R", "R", "C", "S"})} : \E rid \in {R(Rects)} : \E a \in {<<R(-3..3), R(-3..3), R(-3..3)>>} : \E u \in {R(Dirs)} : \E w \in {R(Dirs)} : \E j \in {R(0..1)} :
             LET b == VAdd(a, VMul(R({1, 2}), u)) c == VAdd(VAdd(a, w), VMul(j, u)) f == FrameIn(hist, rid) IN
             IF Definable(a, b, c) /\ FrameOn(t, f, a, b, c).d <= 125
             THEN hist' = Append(hist, Card("CS") @@ [id |-> R({5, 8, 41, 700} \ {e.id : e \in Frames_}), t |-> t, rid |-> rid, a |-> a, b |-> b, c |-> c])
             ELSE UNCHANGED hist
Grids_ == {e \in RangeOf(hist) : e.k = "GRID"}
Local(t) == CASE t = "R" -> <<R(-9..9), R(-9..9), R(-9..9)>>
              [] t = "C" -> <<R(0..9), 90 * R(-2..4), R(-9..9)>>
              [] t = "S" -> <<R(0..9), 90 * R(0..2), 90 * R(-1..3)>>
(* a frame given by three earlier grid points, when they can *)
ByGrids == /\ Cardinality(Grids_) = 3 /\ cfg.nf > 0 /\ Cardinality({e \in Frames_ : e.k = "CS1"}) = 0
           /\ LET g == SetToSeq({e.id : e \in Grids_})
                  p == [i \in 1..3 |-> PosIn(hist, g[i])] d == Max2(p[1].d, Max2(p[2].d, p[3].d))
                  A(i) == VMul(d \div p[i].d, p[i].v) IN
              /\ Definable(A(1), A(2), A(3)) /\ FrameAt("R", d, A(1), A(2), A(3)).d <= 125
              /\ hist' = Append(hist, Card("CS1") @@ [id |-> 99, g |-> g])
Grid ==
  /\ pc = "grids" /\ UNCHANGED cfg
  /\ IF cfg.grd = 1 /\ Frames_ # {} /\ hist # <<>> /\ hist[1].k # "GRDSET" THEN UNCHANGED pc /\ hist' = <<Card("GRDSET") @@ [cp |-> R({e.id : e \in Frames_}), cd |-> 0]>> \o hist
     ELSE IF Cardinality(Grids_) >= cfg.ng THEN UNCHANGED hist /\ pc' = "els"
     ELSE /\ UNCHANGED pc
          /\ IF ENABLED ByGrids THEN ByGrids
             ELSE \E cp \in {R({0, 0, -1, -1} \cup {e.id : e \in Frames_})} :
                  LET rc == IF cp = -1 THEN DefCp(hist) ELSE cp
                      \* axis parallel triples for CORD1R
                      tri == cfg.nf > 0 /\ Cardinality(Grids_) < 3 /\ rc = 0
                      k == Cardinality(Grids_) + 1 IN
                  \E x \in {IF tri THEN (CASE Cardinality(Grids_) = 0 -> <<1,2,3>> [] Cardinality(Grids_) = 1 -> VAdd(<<1,2,3>>, VMul(R(1..3), R(Dirs))) [] OTHER -> VAdd(<<1,2,3>>, R(Dirs)))
                             ELSE Local(FrameIn(hist, rc).t)} :
                  LET h == Append(hist, Card("GRID") @@ [id |-> Id(k), cp |-> cp, x |-> x]) p == PlaceOf(h, Id(k)) IN
                  IF \A o \in GridIds(hist) : PlaceOf(hist, o) # p THEN hist' = h ELSE UNCHANGED hist
ElTypes == {<<"CTETRA", 4>>, <<"CTETRA", 10>>, <<"CPYRAM", 5>>, <<"CPYRAM", 13>>, <<"CPENTA", 6>>, <<"CPENTA", 15>>, <<"CHEXA", 8>>, <<"CHEXA", 20>>,
            <<"CTRIA3", 3>>, <<"CTRIAR", 3>>, <<"CTRIA6", 6>>, <<"CQUAD4", 4>>, <<"CQUADR", 4>>, <<"CQUAD8", 8>>, <<"CQUAD", 4>>, <<"CQUAD", 8>>,
            <<"CROD", 2>>, <<"CBAR", 2>>, <<"CBEAM", 2>>, <<"CONROD", 2>>}
PidBase(t) == CASE t \in {"CTETRA", "CPYRAM", "CPENTA", "CHEXA"} -> 10 [] t \in {"CROD"} -> 20 [] t = "CBAR" -> 30 [] t = "CBEAM" -> 40 [] OTHER -> 50
Els_ == {e \in RangeOf(hist) : e.k = "EL"}
El ==
  /\ pc = "els" /\ UNCHANGED cfg
  /\ IF Cardinality(Els_) >= cfg.ne THEN UNCHANGED hist /\ pc' = "mix"
     ELSE /\ UNCHANGED pc
          /\ \E ty \in {R({x \in ElTypes : x[2] <= Cardinality(Grids_)})} : \E q \in {Mix(SetToSeq(GridIds(hist)))} : \E p \in {R(1..2)} : \E own \in {R(1..6)} : \E id \in {Id(100 - Cardinality(Els_) * R({1, 3}))} :
             LET t == ty[1] n == SubSeq(q, 1, ty[2]) IN
             hist' = IF \E e \in Els_ : e.id = id \/ id > 99999998 THEN hist
                     ELSE Append(hist, Card("EL") @@ [t |-> t, id |-> id, pid |-> IF own = 1 /\ PidBase(t) \in {10, 20, 50} /\ ~(id \in 1..60) THEN 0 ELSE PidBase(t) + p, n |-> n])
Shuffle == /\ pc = "mix" /\ pc' = "done" /\ UNCHANGED cfg
           /\ hist' = Mix(Mix(hist))
Done == pc = "done" /\ pc' = "end" /\ UNCHANGED <<hist, cfg>> /\ PrintT("@@" \o ToJson(hist))
Next == Start \/ Frame \/ Grid \/ El \/ Shuffle \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
