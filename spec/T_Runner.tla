------------------------------ MODULE T_Runner ------------------------------
EXTENDS Runner, TLC, Json, IOUtils
VARIABLES l, cname, c
vars == <<l, cname, c>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ cname = "" /\ c = [run |-> FALSE]
Case == E.ev = "case" /\ cname' = E.name /\ UNCHANGED c
Call == E.ev = "call" /\ c' = E /\ UNCHANGED cname
Obs == /\ E.ev = "obs" /\ UNCHANGED <<cname, c>>
       /\ CASE E.o = "problem" -> Rej("problem", E.what)
            [] E.o = "end" ->
                 /\ Check("exit", E.code = Code(c), Code(c))
                 \* a solver that is not there leaves no trace of its start
                 /\ Check("started", Len(E.starts) = (IF Started(c) /\ c.solver.found THEN 1 ELSE 0), Started(c))
                 /\ \A s \in {E.starts[i] : i \in DOMAIN E.starts} :
                      /\ Check("program", s.prog = Program(c), Program(c))
                      /\ Check("directory", s.there, "the solver runs in the output directory")
                      /\ Check("input", s.input, "the file it is given is there")
                      /\ Check("complete", s.missing = <<>>, [incomplete |-> s.missing])
                      /\ Check("stale", s.stale = <<>>, [kept |-> s.stale])
                 /\ Check("outside", E.outside = <<>>, [written |-> E.outside])
                 /\ Check("translated", Translation(c) = OK => E.output, "the translation is in the output directory")
                 /\ \A n \in DOMAIN E.opts : Check(n, E.opts[n] = Effective(c, n), Effective(c, n))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Call \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
