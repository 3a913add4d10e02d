------------------------------ MODULE T_Lexer ------------------------------
(* The cards the tokenizer hands out for a sequence of physical lines have to *)
(* be those the reader of Layout reads.                                       *)
EXTENDS Layout, TLC, Json, IOUtils
VARIABLES l, rd, cname
vars == <<l, rd, cname>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Init == l = 1 /\ rd = Empty /\ cname = ""
Case == E.ev = "case" /\ rd' = Empty /\ cname' = E.name
Line == E.ev = "line" /\ rd' = Scan(rd, E) /\ UNCHANGED cname
Bad(x, y) == Len(x) # Len(y) \/ \E i \in DOMAIN x : x[i].kw # y[i].kw \/ Trim(x[i].f) # y[i].f
Obs == /\ E.ev = "obs" /\ UNCHANGED <<rd, cname>>
       /\ CASE E.o = "problem" -> Rej("problem", E.what)
            [] E.o = "cards" -> Bad(E.list, Result(rd)) => Rej("cards", Result(rd))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Line \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
