------------------------------ MODULE T_SysMesh ------------------------------
(* The mesh of a Systus model file against the mesh the deck denotes (MeshIO). *)
EXTENDS MeshIO, Json, IOUtils
SO == INSTANCE SysOut
VARIABLES l, cname, D
vars == <<l, cname, D>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ cname = "" /\ D = <<>>
Case == E.ev = "case" /\ cname' = E.name /\ D' = <<>>
Card == E.ev = "card" /\ D' = Append(D, E) /\ UNCHANGED cname
Els == {e \in RangeOf(D) : e.k = "EL"}
(* the element with its nodes in the order of the card *)
DenSys(c, e) == LET ty == MedType(e) n == IF Len(c.n) \in {ty[2], 8} THEN SO!NasOrder(ty, c.n) ELSE c.n IN
   [shape |-> IF IsSolid(e.t) /\ Len(n) = ty[2] THEN Fc!NasDen(Solid[e.t], n) ELSE [faces |-> {n}, mids |-> {}], grp |-> RangeOf(c.grp)]
TypeOk(c, e) == LET ty == MedType(e) IN c.t = 100 * SO!Family(ty) + (IF ty = <<"PYRA", 5>> THEN 8 ELSE ty[2])
ObsCells(o) == LET W(e) == {i \in DOMAIN o.list : o.list[i].id = e.id} IN
  /\ Check("elements", {o.list[i].id : i \in DOMAIN o.list} = {e.id : e \in Els} /\ Len(o.list) = Cardinality(Els), {e.id : e \in Els})
  /\ \A e \in Els : \A i \in W(e) : LET X == DenEl(e) c == o.list[i] IN
       /\ Check("type", TypeOk(c, e), e)
       /\ Check("connectivity", DenSys(c, e).shape = X.shape, e)
       /\ Check("group", DenSys(c, e).grp = X.grp, X.grp)
Obs == /\ E.ev = "obs" /\ UNCHANGED <<cname, D>>
  /\ CASE E.o = "problem" -> Rej("problem", E.what)
       [] E.o = "sysnodes" -> LET P == {<<g, PlaceOf(D, g)[1], PlaceOf(D, g)[2], PlaceOf(D, g)[3]>> : g \in GridIds(D)} IN
            Check("nodes", {<<x[1], x[2], x[3], x[4]>> : x \in RangeOf(E.list)} = P /\ E.dup = 0, P)
       [] E.o = "syscells" -> ObsCells(E)
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Card \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
