----------------------------- MODULE T_Results -----------------------------
EXTENDS Results, TLC, Json, IOUtils
VARIABLES l, cname, d, s
vars == <<l, cname, d, s>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ cname = "" /\ d = [subs |-> <<>>] /\ s = Start
Case == E.ev = "case" /\ cname' = E.name /\ s' = Start /\ UNCHANGED d
Deck == E.ev = "deck" /\ d' = E /\ UNCHANGED <<cname, s>>
Line == E.ev = "line" /\ s' = Read(d, s, E) /\ UNCHANGED <<cname, d>>
Range(q) == {q[i] : i \in DOMAIN q}
Obs == /\ E.ev = "obs" /\ UNCHANGED <<cname, d, s>>
       /\ CASE E.o = "problem" -> Rej("problem", E.what)
            [] E.o = "checks" ->
                 /\ Check("missing", \A x \in Range(s.out) : Count(E.list, x) >= Count(s.out, x), [missing |-> {x \in Range(s.out) : Count(E.list, x) < Count(s.out, x)}])
                 /\ Check("extra", \A x \in Range(E.list) : Count(E.list, x) <= Count(s.out, x), [extra |-> {x \in Range(E.list) : Count(E.list, x) > Count(s.out, x)}])
                 /\ Check("tolerance", \A i \in DOMAIN E.tol : E.tol[i] = d.tol, d.tol)
            [] E.o = "study" -> /\ Check("analyses", E.analyses = (IF d.subs = <<>> THEN <<0>> ELSE d.subs), d.subs)
                                /\ Check("grids", E.nodes = Len(d.grids), Len(d.grids))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Deck \/ Line \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
