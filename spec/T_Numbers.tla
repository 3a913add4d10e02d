----------------------------- MODULE T_Numbers -----------------------------
(* What the code reads from number fields and lists is what they denote.      *)
EXTENDS Numbers, TLC, Json, IOUtils, SequencesExt
VARIABLES l, reals, lists, cname
vars == <<l, reals, lists, cname>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == ok \/ Rej(f, exp)
Init == l = 1 /\ reals = <<>> /\ lists = <<>> /\ cname = ""
Case == E.ev = "case" /\ reals' = <<>> /\ lists' = <<>> /\ cname' = E.name
Real == E.ev = "real" /\ reals' = Append(reals, IF E.chars = <<>> THEN Zero ELSE Value(E.chars)) /\ UNCHANGED <<lists, cname>>
Ints == E.ev = "ints" /\ lists' = Append(lists, ListSet(E.toks)) /\ UNCHANGED <<reals, cname>>
Same(x, v) == x.s = v.s /\ x.m = v.m /\ x.e = v.e
Obs == /\ E.ev = "obs" /\ UNCHANGED <<reals, lists, cname>>
       /\ CASE E.o = "problem" -> Rej("problem", E.what)
            [] E.o = "reals" -> Check("reals", Len(E.list) = Len(reals) /\ \A i \in DOMAIN reals : Same(E.list[i], reals[i]), reals)
            [] E.o = "ints" -> Check("ints", ToSet(E.list) = lists[1], lists[1])
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Real \/ Ints \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
