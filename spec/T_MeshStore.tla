----------------------------- MODULE T_MeshStore -----------------------------
(* What a Mesh and a NodeContainer answer against MeshStore.                    *)
EXTENDS MeshStore, TLC, Json, IOUtils
VARIABLES l, s, cname
vars == <<l, s, cname>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
A(i) == E.a[i]
B(x) == IF x THEN 1 ELSE 0
Up(S) == SetToSortSeq(S, <)
L(S) == <<Cardinality(S)>> \o Up(S)
LQ(q) == <<Len(q)>> \o q
Rest(i) == SubSeq(E.a, i + 1, Len(E.a))             \* a list argument: its length, then its items
Is(exp) == Check(E.o, E.res = exp, exp)
Then(t) == s' = t
Same == UNCHANGED s
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
MaskOf(D) == LET F[d \in 0..6] == IF d = 0 THEN 0 ELSE F[d - 1] + (IF d \in D THEN 2 ^ (d - 1) ELSE 0) IN F[6]
NodeRow(i) == LET x == s.nodes[i] IN <<x.id, x.id, i - 1, i - 1, x.p[1], x.p[2], x.p[3], MaskOf(x.d)>>
NodesRes == <<Len(s.nodes)>> \o Flat([i \in DOMAIN s.nodes |-> NodeRow(i)]) \o L(NIds(s)) \o (IF s.nodes = <<>> THEN <<>> ELSE <<Up(NIds(s))[1], Up(NIds(s))[Cardinality(NIds(s))]>>)
CellRow(p) == LET c == s.cells[p + 1] IN <<c.id, p, c.t>> \o LQ([i \in DOMAIN c.nd |-> s.nodes[c.nd[i] + 1].id]) \o LQ(c.nd)
OfType(t) == LET q == SelectSeq(s.cells, LAMBDA c : c.t = t) IN <<Len(q)>> \o [i \in DOMAIN q |-> q[i].id]
GroupRes(n) == IF n \notin DOMAIN s.groups THEN <<0>>
  ELSE LET g == s.groups[n] IN <<1, 1, g.k, B(g.mem = {})>> \o L(GNodes(s, n)) \o (IF g.k = 1 THEN L(NIdOf(s, g.mem)) ELSE L(CIdOf(s, g.mem)) \o L(g.mem))
ByOid(o) == {n \in DOMAIN s.groups : s.groups[n].oid = o}
Names(k) == Up({n \in DOMAIN s.groups : s.groups[n].k = k})
GidsRes == Flat([o \in 1..4 |-> IF ByOid(o) = {} THEN <<0, 0>> ELSE <<1, CHOOSE n \in ByOid(o) : TRUE>>]) \o Names(1) \o <<0>> \o Names(2)
KIds(P) == LET q == Up(P) IN <<Len(q)>> \o [i \in DOMAIN q |-> s.cells[q[i] + 1].id]
KRes == L(NIdOf(s, KN(s))) \o L(NIdOf(s, KNx(s))) \o L(KN(s)) \o L(KNx(s)) \o L(CIdOf(s, KC(s))) \o L(CIdOf(s, s.k.c)) \o L(KC(s)) \o L(s.k.c)
        \o KIds(KC(s)) \o KIds(s.k.c) \o <<B(s.k.ng # {}), B(s.k.cg # {}), B(KN(s) # {}), B(s.k.n # {}), B(KC(s) # {}), B(s.k.c # {})>>
KOk == /\ Len(E.res) = Len(KRes) + 1 /\ SubSeq(E.res, 1, Len(KRes)) = KRes
       /\ KN(s) # {} => E.res[Len(E.res)] = 0
       /\ (s.k.n = {} /\ s.k.c = {} /\ s.k.ng = {} /\ s.k.cg = {}) => E.res[Len(E.res)] = 1
At(t, i) == s' = t /\ i
Case == E.ev = "case" /\ cname' = E.name /\ s' = Empty
Add(t, exp) == Then(t) /\ Is(exp)
Op ==
  /\ E.ev = "op" /\ UNCHANGED cname
  /\ CASE E.o = "node" -> LET t == Define(s, A(1), <<A(2), A(3), A(4)>>) IN Add(t, <<NPos(t, A(1)), Len(t.nodes)>>)
       [] E.o = "anode" -> LET id == E.res[2] t == Define(s, id, <<A(1), A(2), A(3)>>) IN Then(t) /\ Check("automatic", FreshNode(s, id) /\ E.res[1] = Len(s.nodes), "an identifier not in use")
       [] E.o = "reserve" -> LET t == Reserve(s, A(1)) IN Add(t, <<NPos(t, A(1))>>)
       [] E.o = "reserves" -> LET q == Rest(1) t == ReserveAll(s, q) IN Add(t, L({NPos(t, q[i]) : i \in DOMAIN q}))
       [] E.o = "allow" -> Then(Allow(s, A(1), {d \in 1..6 : (A(2) \div 2 ^ (d - 1)) % 2 = 1}))
       [] E.o = "cell" -> LET t == AddCell(s, A(1), A(2), Rest(3)) IN Then(t) /\ Check("cell", E.res[1] = Len(s.cells) /\ E.res[2] = Cardinality(CIds(t)), t.cells)
       [] E.o = "acell" -> LET t == AddCell(s, E.res[2], A(1), Rest(2)) IN Then(t) /\ Check("automatic", FreshCell(s, E.res[2]) /\ E.res[1] = Len(s.cells), "an identifier not in use")
       [] E.o = "ucell" -> Add(Update(s, A(1), A(2), Rest(3)), <<Len(s.cells)>>)
       [] E.o = "ask" -> Same /\ Is(<<NPos(s, A(1)), B(CPos(s, A(1)) >= 0), CPos(s, A(1))>>)
       [] E.o = "ngroup" -> Add(NewGroup(s, A(1), 1, A(2)), <<B(Refused(s, A(1), A(2)))>>)
       [] E.o = "cgroup" -> Add(NewGroup(s, A(1), 2, A(2)), <<B(Refused(s, A(1), A(2)))>>)
       [] E.o = "fgroup" -> Add(FindGroup(s, A(1), A(2)), <<B(FindRefused(s, A(1), A(2)))>>)
       [] E.o = "rmgroup" -> Then(DropGroup(s, A(1)))
       [] E.o = "rename" -> Add(Rename(s, A(1), A(2)), <<0>>)
       [] E.o \in {"gnode"} -> Then(GroupNodes(s, A(1), <<A(2)>>))
       [] E.o = "gnodes" -> Then(GroupNodes(s, A(1), Rest(2)))
       [] E.o \in {"gnodepos", "gcellpos"} -> Then(Into(s, A(1), {A(2)}))
       [] E.o \in {"gnoderm", "gcellrm"} -> Then(Out(s, A(1), A(2)))
       [] E.o = "gcell" -> Then(GroupCells(s, A(1), <<A(2)>>))
       [] E.o = "gcells" -> Then(GroupCells(s, A(1), Rest(2)))
       [] E.o = "knode" -> LET t == Reserve(s, A(1)) IN Then([t EXCEPT !.k.n = @ \cup {NPos(t, A(1))}])
       [] E.o = "kcell" -> Then([s EXCEPT !.k.c = @ \cup {CPos(s, A(1))}])
       [] E.o = "kngroup" -> Then([s EXCEPT !.k.ng = @ \cup {A(1)}])
       [] E.o = "kcgroup" -> Then([s EXCEPT !.k.cg = @ \cup {A(1)}])
       [] E.o = "kclear" -> Then([s EXCEPT !.k = Empty.k])
       [] E.o = "k" -> Same /\ Check("container", KOk, KRes)
       [] E.o = "nodes" -> Same /\ Is(NodesRes)
       [] E.o = "cellat" -> Same /\ Is(CellRow(A(1)))
       [] E.o = "bytype" -> Same /\ Is(Flat([t \in 1..5 |-> OfType(t)]))
       [] E.o = "group" -> Same /\ Is(GroupRes(A(1)))
       [] E.o = "gids" -> Same /\ Is(GidsRes)
  /\ Check("well-formed", Wf(s'), "identifiers, positions and groups consistent")
Prob == E.ev = "obs" /\ UNCHANGED <<s, cname>> /\ Rej("problem", E.what)
Init == l = 1 /\ cname = "" /\ s = Empty
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Op \/ Prob)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
