---------------------------- MODULE MC_MeshStore ----------------------------
(* Every short history of a small mesh.                                        *)
EXTENDS MeshStore, TLC
CONSTANTS NI, CI, GN, Depth
VARIABLES s, n
vars == <<s, n>>
Ids == 1..NI
Pt == <<1, 2, 3>>
Init == s = Empty /\ n = 0
Step == n < Depth /\ n' = n + 1
Node == Step /\ \E id \in Ids : s' = Define(s, id, Pt)
Auto == Step /\ \E id \in Ids : FreshNode(s, id) /\ s' = [s EXCEPT !.nodes = Append(@, [id |-> id, p |-> Pt, d |-> {}])]
Res == Step /\ \E id \in Ids : s' = Reserve(s, id)
Cell == Step /\ \E id \in 1..CI, a, b \in Ids : id \notin CIds(s) /\ s' = AddCell(s, id, 2, <<a, b>>)
Upd == Step /\ \E id \in CIds(s), a, b \in Ids : s' = Update(s, id, 2, <<a, b>>)
Group == Step /\ \E g \in 1..GN, k \in 1..2, o \in 0..1 : s' = NewGroup(s, g, k, o)
Drop == Step /\ \E g \in DOMAIN s.groups : s' = DropGroup(s, g)
Ren == Step /\ \E g \in DOMAIN s.groups, h \in (1..GN) \ DOMAIN s.groups : s' = Rename(s, g, h)
PutN == Step /\ \E g \in DOMAIN s.groups, id \in Ids : s.groups[g].k = 1 /\ s' = GroupNodes(s, g, <<id>>)
PutC == Step /\ \E g \in DOMAIN s.groups, id \in CIds(s) : s.groups[g].k = 2 /\ s' = GroupCells(s, g, <<id>>)
Take == Step /\ \E g \in DOMAIN s.groups : \E i \in s.groups[g].mem : s' = Out(s, g, i)
Next == Node \/ Auto \/ Res \/ Cell \/ Upd \/ Group \/ Drop \/ Ren \/ PutN \/ PutC \/ Take
Spec == Init /\ [][Next]_vars
WellFormed == Wf(s)
(* positions are for ever, identifiers keep their position, a definition is not lost *)
Stable == [][/\ Len(s'.nodes) >= Len(s.nodes) /\ \A i \in DOMAIN s.nodes : s'.nodes[i].id = s.nodes[i].id /\ (s.nodes[i].p = Pt => s'.nodes[i].p = Pt)
             /\ \A id \in NIds(s) : NPos(s', id) = NPos(s, id)
             /\ Len(s'.cells) >= Len(s.cells) /\ \A i \in DOMAIN s.cells : s'.cells[i] = s.cells[i]]_vars
=============================================================================
