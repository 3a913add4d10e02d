------------------------------- MODULE G_Deck -------------------------------
(* Random well formed decks as behaviours of Deck (TLC simulation). Each      *)
(* finished behaviour is printed as JSON and replayed through vegapp.         *)
EXTENDS Deck, Json, Randomization, SequencesExt
CONSTANT Focus, MaxCards
VARIABLES d, hist, pc, cfg, dep
vars == <<d, hist, pc, cfg, dep>>

R(S) == RandomElement(S)
Sub(k, S) == RandomSubset(IF k > Cardinality(S) THEN Cardinality(S) ELSE k, S)
AsSeq(S) == SetToSeq(S)
Dice(n) == R(1..n)

(* ------------------------------------------------------------- base mesh *)
Xyz == [f \in 1..6 |-> CASE f = 1 -> <<0,0,0>> [] f = 2 -> <<2,0,0>> [] f = 3 -> <<2,3,0>> [] f = 4 -> <<2,3,4>> [] f = 5 -> <<5,3,4>> [] f = 6 -> <<5,-1,4>>]
Hex == <<<<0,10,0>>, <<1,10,0>>, <<1,12,0>>, <<0,12,0>>, <<0,10,3>>, <<1,10,3>>, <<1,12,3>>, <<0,12,3>>>>
Tet == <<<<0,20,0>>, <<1,20,0>>, <<0,22,0>>, <<0,20,3>>>>
Pen == <<<<5,20,0>>, <<7,20,0>>, <<5,21,0>>, <<5,20,2>>, <<7,20,2>>, <<5,21,2>>>>
Shl == <<<<10,0,1>>, <<12,0,1>>, <<12,2,1>>, <<10,2,1>>, <<14,0,1>>, <<14,2,1>>>>
(* cfg: how many bars, whether a solid and shells are present, identifier mapping *)
Id(k) == cfg.off + cfg.mul * k
FrameN == {Id(k) : k \in 1..(cfg.bars + 1)}
HexN == IF cfg.hex THEN {Id(10 + k) : k \in 1..8} \cup {Id(40 + k) : k \in 1..4} \cup {Id(50 + k) : k \in 1..6} ELSE {}
ShlN == IF cfg.shl THEN {Id(20 + k) : k \in 1..6} ELSE {}
SixN == (IF Focus = "systus" THEN FrameN \cup HexN ELSE IF cfg.rod THEN {Id(1), Id(2)} ELSE FrameN) \cup ShlN
AllN == FrameN \cup ShlN \cup HexN
Card(k) == [ev |-> "card", k |-> k]
GridCard(id, x, ps) == Card("GRID") @@ [id |-> id, x |-> x, ps |-> ps]
RandPs(k) == IF Focus \in {"spc", "cases", "systus"} /\ Dice(4) = 1 THEN AsSeq(Sub(Dice(3), 1..6)) ELSE <<>>
ElCard(t, id, n) == Card("EL") @@ [t |-> t, id |-> id, n |-> n]
BaseMesh ==
  LET fr == [k \in 1..(cfg.bars + 1) |-> GridCard(Id(k), Xyz[k], RandPs(k))]
      be == [k \in 1..cfg.bars |-> ElCard(IF cfg.rod /\ (k > 1 \/ Focus = "systus") THEN "CROD" ELSE "CBAR", Id(k), <<Id(k), Id(k + 1)>>)]
      hx == IF cfg.hex THEN [k \in 1..8 |-> GridCard(Id(10 + k), Hex[k], <<>>)] \o <<ElCard("CHEXA", Id(30), [k \in 1..8 |-> Id(10 + k)])>>
              \o [k \in 1..4 |-> GridCard(Id(40 + k), Tet[k], <<>>)] \o <<ElCard("CTETRA", Id(34), [k \in 1..4 |-> Id(40 + k)])>>
              \o [k \in 1..6 |-> GridCard(Id(50 + k), Pen[k], <<>>)] \o <<ElCard("CPENTA", Id(35), [k \in 1..6 |-> Id(50 + k)])>> ELSE <<>>
      sh == IF cfg.shl THEN [k \in 1..6 |-> GridCard(Id(20 + k), Shl[k], RandPs(k))] \o
                 <<ElCard("CQUAD4", Id(31), <<Id(21), Id(22), Id(23), Id(24)>>), ElCard("CTRIA3", Id(32), <<Id(22), Id(25), Id(23)>>), ElCard("CTRIA3", Id(33), <<Id(25), Id(26), Id(23)>>)>> ELSE <<>>
  IN fr \o be \o hx \o sh
Shells == IF cfg.shl THEN {Id(31), Id(32), Id(33)} ELSE {}
Faces == {<<1,2,3,4>>, <<5,6,7,8>>, <<1,2,6,5>>, <<2,3,7,6>>, <<3,4,8,7>>, <<4,1,5,8>>}

(* ------------------------------------------------------------ card choice *)
SpcS == {1, 2, 3}
LoadS == {11, 12, 13}
MpcS == {21, 22}
RandDofs(n) == AsSeq(Sub(Dice(6), 1..6))
NVal == {-3, -2, -1, 1, 2, 3}
Dir == {<<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<1,-2,3>>, <<0,2,-1>>, <<-1,0,0>>, <<2,0,5>>}
AxisPairs == {p \in (1..(cfg.bars)) \X {1} : TRUE}

SpcCard(kind) ==
  CASE kind = "SPC1" -> Card("SPC1") @@ [sid |-> R(SpcS), dofs |-> RandDofs(0), nodes |-> AsSeq(Sub(Dice(4), AllN))]
    [] kind = "SPC" -> Card("SPC") @@ [sid |-> R(SpcS), items |-> [i \in 1..Dice(2) |-> <<R(AllN), RandDofs(0), IF Dice(4) = 1 THEN R({0, 2, 5}) ELSE 0>>]]
    [] kind = "SPCBLANK" -> Card("SPC") @@ [sid |-> R(SpcS), blankc |-> 1, items |-> <<<<R(SixN), <<1,2,3,4,5,6>>, 0>>>>]
CombCard(sid) == Card("LOAD") @@ [sid |-> sid, s2 |-> R({2, 2, 4, 1, -2, 6}), terms |-> LET L == AsSeq(Sub(Dice(4), LoadS)) IN [i \in DOMAIN L |-> <<R({2, 2, 4, -4, 1, 6}), L[i]>>]]
LoadCard(kind) ==
  CASE kind = "FORCE" -> Card("FORCE") @@ [sid |-> R(LoadS), g |-> R(AllN), f |-> R(NVal), v |-> R(Dir)]
    [] kind = "MOMENT" -> Card("MOMENT") @@ [sid |-> R(LoadS), g |-> R(AllN), f |-> R(NVal), v |-> R(Dir)]
    [] kind = "FORCE1" -> Card("FORCE1") @@ [sid |-> R(LoadS), g |-> R(SixN), f |-> R(NVal), g1 |-> Id(2), g2 |-> R({Id(1), Id(3)})]
    [] kind = "FORCE2" -> Card("FORCE2") @@ [sid |-> R(LoadS), g |-> R(SixN), f |-> R(NVal), g1 |-> Id(1), g2 |-> Id(2), g3 |-> Id(2), g4 |-> Id(3)]
    [] kind = "GRAV" -> Card("GRAV") @@ [sid |-> R(LoadS), a |-> R(NVal), v |-> R(Dir)]
    [] kind = "RFORCE" -> Card("RFORCE") @@ [sid |-> 14, g |-> R(FrameN), a |-> R(1..3), v |-> R({<<1,0,0>>, <<0,0,1>>, <<0,-2,0>>})]
    [] kind = "PLOAD2" -> Card("PLOAD2") @@ [sid |-> R(LoadS), p |-> R(NVal), els |-> AsSeq(Sub(Dice(3), Shells))]
    [] kind = "PLOAD4" -> LET a == R(Shells) IN Card("PLOAD4") @@ [sid |-> R(LoadS), p |-> R(NVal), e1 |-> a, e2 |-> IF cfg.mul = 1 /\ Dice(2) = 1 THEN R({x \in Shells : x >= a}) ELSE a]
    [] kind = "PFACE" -> LET f == R(Faces) IN Card("PFACE") @@ [sid |-> R(LoadS), p |-> R(NVal), e |-> Id(30), face |-> [i \in 1..4 |-> Id(10 + f[i])], g1 |-> Id(10 + f[1]), g34 |-> Id(10 + f[3])]
    [] kind = "PFACEV" -> LET f == R(Faces) IN Card("PFACEV") @@ [sid |-> R(LoadS), p |-> R(NVal), e |-> Id(30), face |-> [i \in 1..4 |-> Id(10 + f[i])], g1 |-> Id(10 + f[1]), g34 |-> Id(10 + f[3]),
                            v |-> R({<<1,0,0>>, <<0,1,0>>, <<0,0,-1>>, <<0,0,2>>, <<-3,0,0>>})]
    [] kind = "PFACET" -> LET f == R({<<1,2,4>>, <<1,2,3>>, <<2,3,4>>, <<1,3,4>>})   \* face of the tetrahedron, then the corner opposite to it
                              o == CHOOSE k \in 1..4 : k \notin Range(f)
                          IN Card("PFACE") @@ [sid |-> R(LoadS), p |-> R(NVal), e |-> Id(34), face |-> [i \in 1..3 |-> Id(40 + f[i])], g1 |-> Id(40 + f[Dice(3)]), g34 |-> Id(40 + o)]
    [] kind = "PFACEP" -> LET f == R({<<1,2,3>>, <<4,5,6>>, <<1,2,5,4>>, <<2,3,6,5>>, <<3,1,4,6>>})
                          IN Card("PFACE") @@ [sid |-> R(LoadS), p |-> R(NVal), e |-> Id(35), face |-> [i \in DOMAIN f |-> Id(50 + f[i])], g1 |-> Id(50 + f[1]), g34 |-> IF Len(f) = 3 THEN 0 ELSE Id(50 + f[3])]
    [] kind = "PLOAD" -> Card("PLOAD") @@ [sid |-> R(LoadS), p |-> R({12, -12, 24}), g |-> R({<<Id(21), Id(22), Id(23), Id(24)>>, <<Id(22), Id(21), Id(24), Id(23)>>, <<Id(22), Id(25), Id(23)>>, <<Id(26), Id(23), Id(25)>>})]
    [] kind = "SPCD" -> Card("SPCD") @@ [sid |-> R(LoadS), items |-> [i \in 1..Dice(2) |-> <<R(SixN), RandDofs(0), R(NVal)>>]]
(* a dependent degree of freedom belongs to one relation only *)
RelCard(kind) ==
  CASE kind = "MPC" -> LET n == Dice(5) + 1 IN Card("MPC") @@ [sid |-> R(MpcS), terms |-> LET Q == AsSeq(Sub(n, SixN \X (1..6))) IN [i \in DOMAIN Q |-> <<Q[i][1], Q[i][2], R({-2, -1, 1, 2, 3})>>]]
    [] kind = "MPC3" -> LET n == Dice(4) + 1 IN Card("MPC") @@ [sid |-> R(MpcS), terms |-> LET Q == AsSeq(Sub(n, AllN \X (1..3))) IN [i \in DOMAIN Q |-> <<Q[i][1], Q[i][2], R({-2, -1, 1, 2, 3})>>]]
    [] kind = "RBE2" -> LET m == R(SixN) IN Card("RBE2") @@ [id |-> Id(90) + Len(hist), m |-> m, dofs |-> RandDofs(0), slaves |-> AsSeq(Sub(Dice(3), SixN \ {m}))]
    [] kind = "RBE2T" -> LET m == R(SixN) IN Card("RBE2") @@ [id |-> Id(90) + Len(hist), m |-> m, dofs |-> AsSeq(Sub(Dice(3), 1..3)), slaves |-> AsSeq(Sub(Dice(3), AllN \ {m}))]
    [] kind = "RBE2ALL" -> LET m == R(SixN) IN Card("RBE2") @@ [id |-> Id(90) + Len(hist), m |-> m, dofs |-> <<1,2,3,4,5,6>>, slaves |-> AsSeq(Sub(Dice(3), SixN \ {m}))]
    [] kind = "CRIGD1" -> LET m == R(SixN) IN Card("CRIGD1") @@ [id |-> Id(90) + Len(hist), m |-> m, dofs |-> <<1,2,3,4,5,6>>, slaves |-> AsSeq(Sub(Dice(3), SixN \ {m}))]
    [] kind = "RBAR" -> LET m == R(SixN) IN Card("RBAR") @@ [id |-> Id(90) + Len(hist), m |-> m, s |-> R(SixN \ {m}), dofs |-> <<1,2,3,4,5,6>>, end |-> Dice(2)]
    \* RBAR1: the components of the second grid that depend on the first, all six of them when the field is blank
    [] kind = "RBAR1" -> LET m == R(SixN)
                            blank == Dice(3) = 1
                        IN Card("RBAR1") @@ [id |-> Id(90) + Len(hist), m |-> m, s |-> R(SixN \ {m}), blank |-> blank, dofs |-> IF blank THEN <<1,2,3,4,5,6>> ELSE RandDofs(0)]
    [] kind = "RBE3" -> LET m == R(SixN)
                            A == Sub(Dice(2), SixN \ {m})
                            B == Sub(Dice(2), (SixN \ {m}) \ A)
                            qa == AsSeq(Sub(Dice(3), 1..3))
                            qb == IF Dice(2) = 1 THEN qa ELSE AsSeq(Sub(Dice(3), 1..3))
                            G(S, w, q) == <<w, q, AsSeq(S)>>   \* weights in quarters
                            W == {4, 5, 6, 8, 10, 12}
                        IN Card("RBE3") @@ [id |-> Id(90) + Len(hist), m |-> m, dofs |-> RandDofs(0),
                             groups |-> IF B # {} /\ Dice(2) = 1 THEN <<G(A, R(W), qa), G(B, R(W), qb)>> ELSE <<G(A, R(W), qa)>>]
DepOf(c) ==
  CASE c.k = "MPC" -> {<<c.terms[1][1], c.terms[1][2]>>}
    [] c.k \in {"RBE2", "CRIGD1"} -> {<<s, q>> : s \in Range(c.slaves), q \in Range(c.dofs)}
    [] c.k \in {"RBAR", "RBAR1"} -> {<<c.s, q>> : q \in Range(c.dofs)}
    [] c.k = "RBE3" -> {<<c.m, q>> : q \in Range(c.dofs)}
    [] c.k = "SPCD" -> UNION {{<<c.items[i][1], q>> : q \in Range(c.items[i][2])} : i \in DOMAIN c.items}
    [] OTHER -> {}
(* the same component twice on one card *)
Twice(c) == c.k = "SPCD" /\ Len(c.items) = 2 /\ c.items[1][1] = c.items[2][1] /\ Range(c.items[1][2]) \cap Range(c.items[2][2]) # {}
IndOf(c) ==
  CASE c.k = "MPC" -> {<<c.terms[i][1], c.terms[i][2]>> : i \in 2..Len(c.terms)}
    [] c.k \in {"RBE2", "CRIGD1", "RBAR", "RBAR1"} -> {<<c.m, q>> : q \in 1..6}
    \* a component held by a single point constraint depends on nothing else
    [] c.k = "SPC1" /\ Focus = "rel" -> {<<g, q>> : g \in Range(c.nodes), q \in Range(c.dofs)}
    [] OTHER -> {}
Kinds == CASE Focus = "cases" -> {}
           [] Focus = "spc" -> {"SPC1", "SPC", "SPCBLANK"}
           [] Focus = "loads" -> {"FORCE", "MOMENT", "FORCE1", "FORCE2", "GRAV", "SPCD", "RFORCE"} \cup (IF cfg.shl THEN {"PLOAD2", "PLOAD4", "PLOAD"} ELSE {}) \cup (IF cfg.hex THEN {"PFACE", "PFACEV", "PFACET", "PFACEP"} ELSE {})
           [] Focus = "systus" -> {"SPC1", "SPC", "SPCBLANK", "FORCE", "MOMENT", "FORCE1", "FORCE2", "GRAV", "SPCD"} \cup (IF cfg.shl THEN {"PLOAD"} ELSE {})
           [] Focus = "nonlin" -> {"FORCE", "MOMENT", "FORCE1", "FORCE2", "GRAV", "SPC1"}
           [] Focus = "rel" -> {"MPC", "MPC3", "RBE2", "RBE2T", "RBE2ALL", "CRIGD1", "RBAR", "RBAR1", "RBE3", "SPC1"}
Gen(k) == CASE k \in {"SPC1", "SPC", "SPCBLANK"} -> SpcCard(k)
            [] k \in {"MPC", "MPC3", "RBE2", "RBE2T", "RBE2ALL", "CRIGD1", "RBAR", "RBAR1", "RBE3"} -> RelCard(k)
            [] OTHER -> LoadCard(k)

(* ------------------------------------------------------------ case control *)
Or0(S) == IF Dice(3) = 1 THEN 0 ELSE R(S)
\* a parameter keeps TLC from evaluating a random choice once for all
SelRec(n) == [spc |-> IF Focus \in {"spc", "cases", "systus", "rel"} THEN Or0(SpcS \cup {4}) ELSE IF Focus \in {"loads", "nonlin"} THEN Or0({1, 1, 2}) ELSE 0,
           mpc |-> IF Focus \in {"rel", "cases"} THEN Or0(MpcS) ELSE 0,
           load |-> IF Focus \in {"loads"} THEN R({0, 11, 12, 13, 14, 31, 31, 32, 33, 33}) ELSE IF Focus = "cases" THEN Or0({11, 12, 13}) ELSE IF Focus \in {"systus", "nonlin"} THEN R({0, 11, 12, 13, 31, 32, 33}) ELSE 0]
\* the strategies of a nonlinear deck: one above the subcases, another one in some of them
NlRec(n, zero) == IF Focus # "nonlin" THEN <<>> ELSE [nl |-> IF zero /\ Dice(2) = 1 THEN 0 ELSE R({71, 72, 73})]
Glob == Card("GLOB") @@ SelRec(Len(hist)) @@ NlRec(Len(hist), FALSE)
SubCard(id) == Card("SUB") @@ [id |-> id] @@ SelRec(id) @@ NlRec(id, TRUE)
Orders == {<<"spc", "mpc", "load">>, <<"load", "spc", "mpc">>, <<"mpc", "load", "spc">>}
(* every set that a case may select exists *)
Markers == <<Card("SPC1") @@ [sid |-> 1, dofs |-> IF Focus = "loads" THEN RandDofs(0) ELSE <<1,2,3>>, nodes |-> IF Focus = "loads" THEN AsSeq(Sub(Dice(5), SixN)) ELSE <<Id(1)>>],
             Card("SPC1") @@ [sid |-> 2, dofs |-> <<2,3>>, nodes |-> <<Id(2)>>],
             Card("SPC1") @@ [sid |-> 3, dofs |-> <<3,4>>, nodes |-> <<Id(1)>>],
             Card("SPCADD") @@ [sid |-> 4, sids |-> AsSeq(Sub(1 + Dice(2), SpcS))],
             Card("FORCE") @@ [sid |-> 11, g |-> Id(2), f |-> 11, v |-> <<1,0,0>>],
             Card("FORCE") @@ [sid |-> 12, g |-> Id(2), f |-> 12, v |-> <<0,1,0>>],
             Card("FORCE") @@ [sid |-> 13, g |-> Id(1), f |-> 13, v |-> <<0,0,1>>],
             Card("MPC") @@ [sid |-> 21, terms |-> <<<<Id(2), 4, 1>>, <<Id(1), 4, 21>>>>],
             Card("MPC") @@ [sid |-> 22, terms |-> <<<<Id(2), 4, 1>>, <<Id(1), 5, 22>>>>],
             CombCard(31), CombCard(32), CombCard(33),
             Card("NLPARM") @@ [sid |-> 71, ninc |-> R({1, 2, 4, 25})], Card("NLPARM") @@ [sid |-> 72, ninc |-> R({3, 5, 100})],
             Card("NLPARM") @@ [sid |-> 73, ninc |-> 10],
             Card("RFORCE") @@ [sid |-> 14, g |-> Id(2), a |-> R(1..3), v |-> R({<<1,0,0>>, <<0,0,1>>, <<0,-2,0>>})]>>
Wanted(c) == CASE Focus = "cases" -> c.k \in {"SPC1", "FORCE", "MPC"} \/ (c.k = "SPCADD")
               [] Focus = "spc" -> c.k \in {"SPCADD", "SPC1"}
               [] Focus = "loads" -> c.k \in {"LOAD", "FORCE", "RFORCE"} \/ (c.k = "SPC1" /\ c.sid \in {1, 2})
               [] Focus = "systus" -> c.k \in {"SPCADD", "SPC1", "LOAD", "FORCE"}
               [] Focus = "rel" -> c.k \in {"MPC", "SPCADD", "SPC1"}
               [] Focus = "nonlin" -> c.k \in {"LOAD", "FORCE", "SPC1", "NLPARM"}

Feed(c) == /\ d' = Read(d, c) /\ hist' = Append(hist, c)
RECURSIVE FeedAll(_, _)
FeedAll(x, s) == IF s = <<>> THEN x ELSE FeedAll(Read(x, Head(s)), Tail(s))

Init == /\ d = EmptyDeck /\ hist = <<>> /\ pc = "start" /\ dep = [dep |-> {}, ind |-> {}, miss |-> 0]
        /\ cfg = [bars |-> 2, hex |-> FALSE, shl |-> FALSE, rod |-> FALSE, off |-> 0, mul |-> 1]
Start == /\ pc = "start" /\ pc' = "glob"
         /\ cfg' = [bars |-> R(2..5), hex |-> Dice(3) = 1, shl |-> Dice(2) = 1, rod |-> Dice(4) = 1,
                    off |-> R({0, 0, 7, 100, 4000}), mul |-> R({1, 1, 3, 10, 100})]
         /\ UNCHANGED <<d, hist, dep>>
GlobSel == /\ pc = "glob" /\ pc' = "subs" /\ \E c \in {Glob @@ [order |-> R(Orders)]} : Feed(c)
           /\ UNCHANGED <<cfg, dep>>
LastId == IF d.subs = <<>> THEN 0
          ELSE Max2(d.subs[Len(d.subs)].id, IF d.coms = <<>> THEN 0 ELSE d.coms[Len(d.coms)].id)
RECURSIVE Coefs(_)
Coefs(n) == IF n = 0 THEN <<>> ELSE Append(Coefs(n - 1), R({2, 2, -2, 1, 3, -5}))
AddSub == /\ pc = "subs" /\ UNCHANGED <<cfg, dep>>
          /\ \E q \in {Dice(3)} : IF q = 1 \/ Len(d.subs) >= (IF Focus = "nonlin" THEN 5 ELSE 3)
               THEN pc' = "mesh" /\ UNCHANGED <<d, hist>>
               ELSE /\ pc' = pc
                    /\ IF Focus = "cases" /\ d.subs # <<>> /\ Dice(3) = 1
                       THEN \E c \in {Card("SUBCOM") @@ [id |-> LastId + R({1, 3}), style |-> Dice(3), co |-> Coefs(R(1..Len(d.subs)))]} : Feed(c)
                       ELSE \E c \in {SubCard(IF d.subs = <<>> THEN R({1, 1, 2, 5}) ELSE LastId + R({1, 1, 2, 7})) @@ [order |-> R(Orders)]} : Feed(c)
Mesh == /\ pc = "mesh" /\ pc' = "sets" /\ UNCHANGED <<cfg, dep>>
        /\ \E s \in {BaseMesh} : d' = FeedAll(d, s) /\ hist' = hist \o s
Sets == /\ pc = "sets" /\ pc' = "cards" /\ UNCHANGED cfg
        /\ \E s \in {SelectSeq(Markers, Wanted)} :
              /\ d' = FeedAll(d, s) /\ hist' = hist \o s
              /\ dep' = [dep |-> UNION {DepOf(s[i]) : i \in DOMAIN s}, ind |-> UNION {IndOf(s[i]) : i \in DOMAIN s}, miss |-> 0]
AddCard == /\ pc = "cards" /\ UNCHANGED <<cfg, pc>>
           /\ Kinds # {}
           /\ \E k \in {R(Kinds)} : \E c \in {Gen(k)} :
                \* relations: a dependent component is used once; sets given by LOAD cards are disjoint from the others
                IF Twice(c) \/ DepOf(c) \cap (dep.dep \cup dep.ind) # {} \/ IndOf(c) \cap dep.dep # {}
                THEN UNCHANGED <<d, hist>> /\ dep' = [dep EXCEPT !.miss = @ + 1]
                ELSE Feed(c) /\ dep' = [dep |-> dep.dep \cup DepOf(c), ind |-> dep.ind \cup IndOf(c), miss |-> dep.miss]
Finish == /\ pc = "cards" /\ pc' = "done" /\ UNCHANGED <<d, hist, cfg, dep>>
          /\ PrintT("@@" \o ToJson(hist))
Ready == Kinds = {} \/ dep.miss > 8 \/ Len(hist) >= cfg.bars * 2 + (IF cfg.hex THEN 21 ELSE 0) + (IF cfg.shl THEN 9 ELSE 0) + 10 + MaxCards
Next == Start \/ GlobSel \/ AddSub \/ Mesh \/ Sets \/ (~Ready /\ AddCard) \/ (Ready /\ Finish)
Spec == Init /\ [][Next]_vars
=============================================================================
