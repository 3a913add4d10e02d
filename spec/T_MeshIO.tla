------------------------------ MODULE T_MeshIO ------------------------------
EXTENDS MeshIO, Json, IOUtils
VARIABLES l, cname, D, at
vars == <<l, cname, D, at>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ cname = "" /\ D = <<>> /\ at = <<>>
Case == E.ev = "case" /\ cname' = E.name /\ D' = <<>> /\ at' = <<>>
Card == E.ev = "card" /\ D' = Append(D, E) /\ UNCHANGED <<cname, at>>
Els == {e \in RangeOf(D) : e.k = "EL"}
ElSeq == SelectSeq(D, LAMBDA e : e.k = "EL")
GridSeq == SelectSeq(D, LAMBDA e : e.k = "GRID")
Missing == -1
Obs == /\ E.ev = "obs" /\ UNCHANGED <<cname, D>>
  /\ CASE E.o = "problem" -> Rej("problem", E.what) /\ UNCHANGED at
       [] E.o = "nodes" -> /\ LET P == [g \in GridIds(D) |-> PlaceOf(D, g)] IN
                              /\ at' = [i \in 1..Len(E.list) |-> IF \E g \in GridIds(D) : P[g] = E.list[i] THEN CHOOSE g \in GridIds(D) : P[g] = E.list[i] ELSE Missing]
                              /\ Check("nodes", SameBag(GridSeq, LAMBDA e : P[e.id], E.list, LAMBDA x : x), P)
       [] E.o = "cells" -> LET N(i) == IF i \in DOMAIN at THEN at[i] ELSE Missing
                               X == {DenEl(e) : e \in Els} IN
            /\ Check("cells", SameBag(ElSeq, DenEl, E.list, LAMBDA c : DenCell(c, N)), X)
            /\ UNCHANGED at
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Card \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
