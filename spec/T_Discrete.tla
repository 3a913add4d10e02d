----------------------------- MODULE T_Discrete -----------------------------
EXTENDS Discrete, Json, IOUtils
VARIABLES l, cname, D, at
vars == <<l, cname, D, at>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ cname = "" /\ D = <<>> /\ at = <<>>
Case == E.ev = "case" /\ cname' = E.name /\ D' = <<>> /\ at' = <<>>
CardRead == E.ev = "card" /\ D' = Append(D, E) /\ UNCHANGED <<cname, at>>
Grids == {e.id : e \in {e \in RangeOf(D) : e.k = "GRID"}}
(* nodes that are no grid points (the ground) are 0 - i *)
At(a) == IF a[1] \in DOMAIN at /\ at[a[1]] \in Grids THEN <<at[a[1]], a[2]>> ELSE <<0 - a[1], a[2]>>
Ground(a) == a[1] <= 0
Obs == /\ E.ev = "obs" /\ UNCHANGED <<cname, D>>
  /\ CASE E.o = "problem" -> Rej("problem", E.what) /\ UNCHANGED at
       [] E.o = "nodes" -> at' = E.list /\ Check("nodes", \A g \in Grids : Cardinality({i \in DOMAIN E.list : E.list[i] = g}) = 1, Grids)
       [] E.o = "matrices" ->
            LET q == [i \in DOMAIN E.list |-> Ent(E.list[i][1], At(E.list[i][2]), At(E.list[i][3]), E.list[i][4])]
                own == SelectSeq(q, LAMBDA x : ~Ground(x.a) /\ ~Ground(x.b))
                B == {At(p) : p \in RangeOf(E.blocked)}
                O == Totals(own)
                X == Totals(Entries(D))
            IN /\ Check("matrices", O = X, [missing |-> X \ O, extra |-> O \ X])
               /\ Check("ground", \A x \in RangeOf(q) : \A p \in {x.a, x.b} : Ground(p) => p \in B, "the ground is blocked")
               /\ Check("blocked", Held(X) \cap B \subseteq Blocked(D), (Held(X) \cap B) \ Blocked(D))
               /\ UNCHANGED at
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ CardRead \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
