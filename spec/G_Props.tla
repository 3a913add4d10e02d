------------------------------ MODULE G_Props ------------------------------
(* Random decks of properties, materials and elements in any card order. *)
EXTENDS Props, Json, Randomization
VARIABLES hist, pc, cfg
vars == <<hist, pc, cfg>>
R(S) == RandomElement(S)
Rg(s) == {s[i] : i \in 1..Len(s)}
Mix(q) == LET L == Len(q) o == R(0..(L - 1)) r == R({TRUE, FALSE})
              st == R({x \in 1..L : \A f \in 2..L : ~(L % f = 0 /\ x % f = 0)}) IN
          [i \in 1..L |-> LET j == ((i * st + o) % L) + 1 IN IF r THEN q[L + 1 - j] ELSE q[j]]
Card(k) == [ev |-> "card", k |-> k]
D == Rg(hist)
Val == {Q(a, b) : a \in {1, 2, 3, 5, 7, 9, 11, 12}, b \in {1, 2, 4, 5, 10}}
Opt(S) == IF R(1..2) = 1 THEN Blank ELSE R(S)
MatIds == {c.mid : c \in Of(D, "MAT1") \cup Of(D, "MAT8")}
Mat1s == {c.mid : c \in Of(D, "MAT1")}
Props_ == {c \in D : c.k \in PropKinds}
Init == hist = <<>> /\ pc = "start" /\ cfg = [nf |-> 0]
Start == /\ pc = "start" /\ pc' = "mats"
         /\ cfg' = [nm |-> R(1..4), np |-> R({1, 2, 3, 4, 6}), ne |-> R({2, 4, 7, 10}), mul |-> R({1, 1, 3, 113, 99991}), w |-> R(1..4),
                    fam |-> R({"any", "any", "shell", "beam", "lam", "solid"})]
         /\ hist' = [i \in 1..24 |-> Card("GRID") @@ [id |-> i, x |-> <<i % 5, (i * i) % 7, i>>]]
Mat == /\ pc = "mats" /\ UNCHANGED cfg
       /\ IF Cardinality(MatIds) >= cfg.nm
          THEN /\ pc' = "props" /\ hist' = IF cfg.w = 1 THEN Append(hist, Card("WTMASS") @@ [v |-> R({<<1,2>>, <<1,4>>, <<3,1>>})]) ELSE hist
          ELSE /\ UNCHANGED pc
               /\ \E id \in {R(1..6) * cfg.mul} : \E k \in {R({"MAT1", "MAT1", "MAT8"})} : \E s \in {R({"EN", "EN", "EN", "EG", "GN", "E", "G", "EGN"})} :
                  \E rho \in {Opt({<<8,1>>, <<39,5>>, <<1,2>>})} :
                  hist' = IF id \in MatIds \/ (k = "MAT8" /\ Mat1s = {}) THEN hist
                  ELSE IF k = "MAT1"
                  THEN Append(hist, Card(k) @@ [mid |-> id, e |-> IF s \in {"G", "GN"} THEN Blank ELSE I(R({210000, 70000, 2500})), nu |-> IF s \in {"E", "G", "EG"} THEN Blank ELSE R({<<3,10>>, <<1,4>>, Zero}),
                               g |-> IF s \in {"E", "EN"} THEN Blank ELSE I(R({80000, 28000, 1000})), rho |-> rho, ge |-> Opt({<<1,20>>, <<1,50>>})])
                  ELSE Append(hist, Card(k) @@ [mid |-> id, e1 |-> I(R({130000, 45000})), e2 |-> I(R({9000, 12000})), nu12 |-> R({<<1,4>>, <<3,10>>}), g12 |-> I(R({5000, 4400})),
                               g1z |-> Opt({<<4100,1>>, <<3900,1>>}), g2z |-> Opt({<<3300,1>>, <<2900,1>>}), rho |-> rho, a1 |-> Opt({<<1,1000>>, <<1,500>>}), a2 |-> Opt({<<3,1000>>}),
                               xt |-> Opt({<<1500,1>>}), xc |-> Opt({<<1200,1>>}), yt |-> Opt({<<50,1>>}), yc |-> Opt({<<250,1>>}), s |-> Opt({<<70,1>>})])
Fam == CASE cfg.fam = "any" -> {"PROD", "PBAR", "PBARL", "PBEAM", "PBEAML", "PSHELL", "PSOLID", "PCOMP", "PSHELL", "PCOMP"}
         [] cfg.fam = "shell" -> {"PSHELL", "PCOMP"} [] cfg.fam = "lam" -> {"PCOMP"} [] cfg.fam = "solid" -> {"PSOLID", "PSHELL"}
         [] cfg.fam = "beam" -> {"PROD", "PBAR", "PBARL", "PBEAM", "PBEAML"}
Pids == {c.pid : c \in Props_}
PlyR(first) == [mid |-> IF ~first /\ R(1..3) = 1 THEN 0 ELSE R(MatIds), t |-> IF ~first /\ R(1..3) = 1 THEN Blank ELSE R(Val), th |-> Opt({<<45,1>>, <<-45,1>>, <<90,1>>, <<30,1>>}), so |-> R({"YES", "NO"})]
PlySeq == {<<PlyR(TRUE)>>, <<PlyR(TRUE), PlyR(FALSE)>>, <<PlyR(TRUE), PlyR(FALSE), PlyR(FALSE)>>, <<PlyR(TRUE), PlyR(FALSE), PlyR(FALSE), PlyR(FALSE)>>}
DimOf(t) == CASE t = "BAR" -> <<R(Val), R(Val)>> [] t = "ROD" -> <<R(Val)>>
              [] t = "TUBE" -> LET a == R(Val) IN <<RAdd(a, R(Val)), a>>
              [] t = "I" -> LET w == I(R(3..6)) f == I(R(1..2)) IN <<I(R(8..12)), w, w, R({<<1,1>>, <<2,1>>, <<1,2>>}), f, f>>
Prop ==
  /\ pc = "props" /\ UNCHANGED cfg
  /\ IF Cardinality(Props_) >= cfg.np THEN UNCHANGED hist /\ pc' = "els"
     ELSE /\ UNCHANGED pc
          /\ \E k \in {R(Fam)} : \E pid \in {R(1..30) * cfg.mul} : \E mid \in {R(Mat1s)} : \E t \in {R({"BAR", "ROD", "TUBE", "I"})} : \E dims \in {DimOf(t)} : \E q \in {R(PlySeq)} :
             \E nsm \in {R({Blank, Blank, <<1,2>>})} :
             LET c == Card(k) @@ [pid |-> pid] IN
             hist' = IF pid \in Pids THEN hist ELSE Append(hist,
               CASE k = "PROD" -> c @@ [mid |-> mid, a |-> R(Val), j |-> Opt(Val), nsm |-> nsm]
                 [] k = "PBAR" -> c @@ [mid |-> mid, a |-> R(Val), i1 |-> Opt(Val), i2 |-> Opt(Val), j |-> Opt(Val), nsm |-> nsm, k1 |-> Opt({<<1,2>>, <<4,5>>, <<1,4>>}), k2 |-> Opt({<<1,2>>, <<4,5>>, <<2,5>>}), rec |-> R({0, 0, 1})]
                 [] k = "PBEAM" -> c @@ [mid |-> mid, a |-> R(Val), i1 |-> R(Val), i2 |-> R(Val), j |-> Opt(Val), nsm |-> nsm]
                 [] k \in {"PBARL", "PBEAML"} -> c @@ [mid |-> mid, t |-> t, d |-> dims, nsm |-> IF t \in {"BAR", "I"} THEN nsm ELSE Blank]
                 [] k = "PSHELL" -> c @@ [mid |-> R(MatIds), t |-> R(Val), b |-> R({0, 1}), nsm |-> nsm]
                 [] k = "PSOLID" -> c @@ [mid |-> mid, in |-> R({"", "BUBBLE", "TWO", "2", "THREE", "3"}), isop |-> R({"", "REDUCED", "FULL", "1"})]
                 [] k = "PCOMP" -> c @@ [z0 |-> Opt({<<-1,2>>, <<1,4>>, Zero, <<-3,1>>}), lam |-> R({"", "", "SYM"}), ft |-> R({"", "", "HILL", "TSAI"}), plies |-> q])
Types(k) == CASE k = "PROD" -> {<<"CROD", 2>>} [] k \in {"PBAR", "PBARL"} -> {<<"CBAR", 2>>} [] k \in {"PBEAM", "PBEAML"} -> {<<"CBEAM", 2>>}
              [] k \in {"PSHELL", "PCOMP"} -> {<<"CTRIA3", 3>>, <<"CQUAD4", 4>>, <<"CTRIA6", 6>>, <<"CQUAD8", 8>>, <<"CQUAD4", 4>>, <<"CTRIAR", 3>>}
              [] k = "PSOLID" -> {<<"CTETRA", 4>>, <<"CPENTA", 6>>, <<"CHEXA", 8>>, <<"CTETRA", 10>>, <<"CPYRAM", 5>>}
Cross3(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
El ==
  /\ pc = "els" /\ UNCHANGED cfg
  /\ IF Cardinality(Els(D)) >= cfg.ne THEN UNCHANGED hist /\ pc' = "mix"
     ELSE /\ UNCHANGED pc
          /\ \E c \in {R(Props_)} : \E ty \in {R(Types(c.k))} : \E n \in {SubSeq(Mix([i \in 1..24 |-> i]), 1, ty[2])} : \E id \in {R(1..40) * cfg.mul} : \E con \in {R(1..8)} :
             \E off \in {IF R(1..2) = 1 THEN Zero ELSE R({<<1,2>>, <<-1,2>>, <<1,4>>, <<3,1>>})} : \E g0 \in {IF R(1..3) = 1 THEN R(1..24) ELSE 0} :
             \E v \in {R({<<1,0,0>>, <<0,0,2>>, <<0,-1,0>>, <<1,2,3>>, <<-2,4,6>>, <<3,1,0>>, <<0,1,0>>, <<0,1,1>>, <<1,2,2>>})} :
             LET conrod == con = 1 /\ ty[2] = 2
                 beam == ty[1] \in {"CBAR", "CBEAM"}
                 sh == ty[1] \in {"CTRIA3", "CQUAD4", "CTRIA6", "CQUAD8", "CTRIAR"}
                 b == Card("EL") @@ [id |-> id, n |-> n, off |-> IF sh /\ IsBlank(Nsm(c)) THEN off ELSE Zero, g0 |-> IF beam THEN g0 ELSE 0, v |-> v]
                 dir == IF g0 # 0 THEN Sub3(XG(D, g0), XG(D, n[1])) ELSE v IN
             hist' = IF (\E e \in Els(D) : e.id = id) \/ (beam /\ Cross3(dir, Sub3(XG(D, n[2]), XG(D, n[1]))) = <<0,0,0>>) THEN hist
                     ELSE Append(hist, IF conrod THEN b @@ [t |-> "CONROD", mid |-> R(Mat1s), a |-> R(Val), g0 |-> 0, nsm |-> R({Blank, <<1,4>>})] ELSE b @@ [t |-> ty[1], pid |-> c.pid])
Shuffle == /\ pc = "mix" /\ pc' = "done" /\ UNCHANGED cfg /\ hist' = Mix(Mix(hist))
Done == pc = "done" /\ pc' = "end" /\ UNCHANGED <<hist, cfg>> /\ PrintT("@@" \o ToJson(hist))
Next == Start \/ Mat \/ Prop \/ El \/ Shuffle \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
