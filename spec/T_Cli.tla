-------------------------------- MODULE T_Cli --------------------------------
EXTENDS Cli, TLC, Sequences, Json, IOUtils
VARIABLES l, r, cname
vars == <<l, r, cname>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Nothing == [input |-> "none", modes |-> {}, extra |-> "", out |-> "there", from |-> "", to |-> ""]
Init == l = 1 /\ r = Nothing /\ cname = ""
Case == E.ev = "case" /\ r' = Nothing /\ cname' = E.name
Ask == /\ E.ev = "ask" /\ UNCHANGED cname
       /\ r' = [input |-> E.input, modes |-> {E.modes[i] : i \in DOMAIN E.modes}, extra |-> E.extra, out |-> E.out, from |-> E.from, to |-> E.to]
Observe == /\ E.ev = "obs" /\ UNCHANGED <<r, cname>>
           /\ IF E.o = "problem" THEN Rej("problem", E.what)
              ELSE /\ Check("code", E.rc \in Codes(r), Codes(r))
                   /\ Check("written", E.written = Written(r), Written(r))
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Ask \/ Observe)
Spec == Init /\ [][Next]_vars
Finished == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
