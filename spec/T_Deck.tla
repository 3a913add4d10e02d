------------------------------ MODULE T_Deck ------------------------------
(* Trace validation: recorded behaviours of vegapp (cards fed in, projected *)
(* output read back) against the meaning given by Deck.                     *)
EXTENDS NonLin, Json, IOUtils, SequencesExt
VARIABLES l, d, cname
vars == <<l, d, cname>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ d = EmptyDeck /\ cname = ""
Case == /\ E.ev = "case" /\ d' = EmptyDeck /\ cname' = E.name
Card == /\ E.ev = "card" /\ d' = Read(d, E) /\ UNCHANGED cname
AsSet3(s) == {<<x[1], x[2], x[3]>> : x \in Range(s)}

StructDofs(g) == UNION {ElemDofs(e.t) : e \in {x \in d.els : g \in Range(x.n)}}
(* components that no element of the deck gives to a node may be blocked by the translation *)
Blockable(x) == x[3] = 0 /\ x[2] \notin StructDofs(x[1])

ObsSpc(i, o) ==
  LET S == AsSet3(o.set) X == ExpSpc(d, i) IN
  /\ Check("spc-missing", X \subseteq S, X \ S)
  /\ Check("spc-extra", \A x \in S \ X : Blockable(x), {x \in S \ X : ~Blockable(x)})
  /\ Check("spc-duplicated", Len(o.set) = Cardinality(S), [n |-> Len(o.set), distinct |-> Cardinality(S)])
ObsLoads(i, o) ==
  LET N == {<< <<x[1], x[2]>>, x[3]>> : x \in Range(o.force)} X == ExpNodal(d, i)
      I == AsSet3(o.imp) XI == {<<m[1][1], m[1][2], m[2]>> : m \in ImpOf(d, i)}
      G == {<<x[1], x[2]>> : x \in Range(o.grav)} XG == ExpGrav(d, i)
      P == {<<CASE x[1] = "shell" -> <<"shell", x[2]>> [] x[1] = "face" -> <<"face", Range(x[2])>>
                      [] OTHER -> <<"trac", <<x[2][1], Range(x[2][2]), x[2][3]>>>>, x[3]>> : x \in Range(o.pres)} XP == ExpPres(d, i)
      R == {<<x[1], x[2]>> : x \in Range(o.rot)} XR == ExpRot(d, i)
  IN /\ Check("force", N = X, X)
     /\ Check("imposed", I = XI, XI)
     /\ Check("gravity", G = XG, XG)
     /\ Check("pressure", P = XP, XP)
     /\ Check("rotation", R = XR, XR)
ObsRel(i, o) ==
  LET S == Space({SeqRow(r) : r \in Range(o.rels)} \cup UNION {SolidRows(d, s) : s \in Range(o.solid)}) X == ExpSpace(d, i)
  IN Check("relations", S = X, X)
ObsRbe3(o) ==
  LET S == {[m |-> r.m, dofs |-> Range(r.dofs), sl |-> {<<x[1], Range(x[2]), x[3]>> : x \in Range(r.sl)}] : r \in Range(o.list)}
      X == {[m |-> r.m, dofs |-> r.dofs, sl |-> r.sl] : r \in d.rbe3}
  IN Check("rbe3", S = X /\ Len(o.list) = Cardinality(d.rbe3), X)
(* one analysis of a nonlinear history: the one it starts from, its instants, and what is applied over it *)
ObsHistory(i, o) ==
  LET Keyed(s) == {<< <<x[1], x[2]>>, x[3]>> : x \in Range(s)} IN
  /\ Check("starts-from", o.from = i - 1, i - 1)
  /\ Check("instants", o.t = <<i - 1, i>>, <<i - 1, i>>)
  /\ Check("increments", o.n = NinC(d, i), NinC(d, i))
  /\ \A k \in DOMAIN o.at : LET tau == o.at[k].tau X == ForceAt(d, i, tau) G == GravAt(d, i, tau) IN
        /\ Check("force-history", Keyed(o.at[k].force) = X, [tau |-> tau, force |-> X])
        /\ Check("gravity-history", {<<x[1], x[2]>> : x \in Range(o.at[k].grav)} = G, [tau |-> tau, grav |-> G])
ObsComs(o) ==
  LET X == [i \in DOMAIN d.coms |-> [id |-> d.coms[i].id, of |-> d.coms[i].of]] IN
  Check("combinations", Len(o.list) = Len(X) /\ \A i \in DOMAIN X : o.list[i].id = X[i].id /\ Len(o.list[i].of) = Cardinality(X[i].of)
                                                                    /\ {<<t[1], t[2]>> : t \in Range(o.list[i].of)} = X[i].of, X)
ObsIds(o) == LET X == [i \in 1..NAn(d) |-> AnId(d, i)] IN Check("case-ids", o.list = X, X)
(* every grid and every element once, nothing else; the faces of solids may be there to carry pressures *)
Skin(c) == \E e \in d.els : IsSolid(e.t) /\ Range(c) \subseteq Range(e.n) /\ Len(c) < Len(e.n)
ObsMesh(o) ==
  LET X == {Range(e.n) : e \in d.els} N == SelectSeq(o.els, LAMBDA c : ~Skin(c)) IN
  /\ Check("nodes", Range(o.nodes) = DOMAIN d.grids /\ Len(o.nodes) = Cardinality(DOMAIN d.grids), DOMAIN d.grids)
  /\ Check("elements", {Range(c) : c \in Range(N)} = X /\ Len(N) = Cardinality(d.els), X)
Observe ==
  /\ E.ev = "obs" /\ UNCHANGED <<d, cname>>
  /\ CASE E.o = "outcome" -> Check("outcome", E.ok = ~AnyConflict(d), ~AnyConflict(d))
       [] E.o = "problem" -> Rej("problem", E.what)
       [] E.o = "ids" -> ObsIds(E)
       [] E.o = "coms" -> ObsComs(E)
       [] E.o = "mesh" -> ObsMesh(E)
       [] E.an < 1 \/ E.an > NAn(d) -> Rej("analyses", NAn(d))
       [] E.o = "spc" -> ObsSpc(E.an, E)
       [] E.o = "loads" -> ObsLoads(E.an, E)
       [] E.o = "history" -> ObsHistory(E.an, E)
       [] E.o = "rel" -> ObsRel(E.an, E)
       [] E.o = "rbe3" -> ObsRbe3(E)
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Card \/ Observe)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
