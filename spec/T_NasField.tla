----------------------------- MODULE T_NasField -----------------------------
(* What the fields written hold is what was read, to the digits there is room for. *)
EXTENDS NasField, TLC, Json, IOUtils
VARIABLES l, vals, cname
vars == <<l, vals, cname>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ vals = <<>> /\ cname = ""
Case == E.ev = "case" /\ vals' = <<>> /\ cname' = E.name
ReadVal == E.ev = "val" /\ vals' = Append(vals, [s |-> E.s, m |-> E.m, e |-> E.e]) /\ UNCHANGED cname
Obs == /\ E.ev = "obs" /\ UNCHANGED <<vals, cname>>
       /\ CASE E.o = "problem" -> Rej("problem", E.what)
            [] E.o = "reals" -> /\ Check("count", Len(E.list) = Len(vals), Len(vals))
                                /\ \A i \in DOMAIN vals : i \in DOMAIN E.list => Check("digits", Near(E.list[i], vals[i], Keep(vals[i], 8)), vals[i])
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ ReadVal \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
