--------------------------- MODULE T_LocalFrames ---------------------------
EXTENDS LocalFrames, Json, IOUtils
CONSTANTS Spc, Mpc, Load
VARIABLES l, cname, D, at
vars == <<l, cname, D, at>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ cname = "" /\ D = <<>> /\ at = <<>>
Case == E.ev = "case" /\ cname' = E.name /\ D' = <<>> /\ at' = <<>>
CardRead == E.ev = "card" /\ D' = Append(D, E) /\ UNCHANGED <<cname, at>>
GridSeq == SelectSeq(D, LAMBDA e : e.k = "GRID")
Missing == -1
At(i) == IF i \in DOMAIN at THEN at[i] ELSE Missing
ObsRow(o) == LET T == {<<At(o.t[i][1]), o.t[i][2], o.t[i][3]>> : i \in DOMAIN o.t} IN
             IF \E x \in T : x[1] = Missing THEN [t |-> T, r |-> o.r] ELSE Signed([t |-> T, r |-> o.r])
NonZero(S) == {x \in S : x[2] # Zero3}
Loads(k) == NonZero({<<g, LoadOn(D, k, Load, g)>> : g \in GridIds(D)})
Obs == /\ E.ev = "obs" /\ UNCHANGED <<cname, D>>
  /\ CASE E.o = "problem" -> Rej("problem", E.what) /\ UNCHANGED at
       [] E.o = "nodes" -> /\ LET P == [g \in GridIds(D) |-> PlaceOf(D, g)] IN
                              /\ at' = [i \in 1..Len(E.list) |-> IF \E g \in GridIds(D) : P[g] = E.list[i] THEN CHOOSE g \in GridIds(D) : P[g] = E.list[i] ELSE Missing]
                              /\ Check("nodes", SameBag(GridSeq, LAMBDA e : P[e.id], E.list, LAMBDA x : x), P)
       [] E.o = "rows" -> LET X == Rows(D, Spc, Mpc) O == {ObsRow(E.list[i]) : i \in DOMAIN E.list} IN
            /\ Check("rows", O = X, [missing |-> X \ O, extra |-> O \ X])
            /\ Check("once", Cardinality(O) = Len(E.list), "each constraint once")
            /\ UNCHANGED at
       [] E.o = "loads" -> /\ \A k \in {"FORCE", "MOMENT"} :
                                LET X == Loads(k) O == {<<At(E[k][i][1]), E[k][i][2]>> : i \in DOMAIN E[k]} IN Check(k, O = X, [missing |-> X \ O, extra |-> O \ X])
                           /\ UNCHANGED at
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ CardRead \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
