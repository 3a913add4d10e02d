------------------------------- MODULE T_Order -------------------------------
EXTENDS Order, TLC, Json, IOUtils
VARIABLES l, n, ref, cname
vars == <<l, n, ref, cname>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ n = 0 /\ ref = <<>> /\ cname = ""
Case == E.ev = "case" /\ n' = 0 /\ ref' = <<>> /\ cname' = E.name
Bag == E.ev = "bag" /\ n' = E.n /\ UNCHANGED <<ref, cname>>
(* a translation of the cards in the order E.order *)
Observe == /\ E.ev = "obs" /\ UNCHANGED <<n, cname>>
  /\ CASE E.o = "problem" -> Rej("problem", E.what) /\ ref' = ref
       [] E.o = "repeat" -> Check("repeat", E.first = E.second, "identical files") /\ ref' = ref
       [] E.o = "translation" ->
            LET got == [rc |-> E.rc, items |-> SetOf(E.items)] IN
            /\ Check("order", IsPermutation(E.order, n), "a permutation of the cards")
            /\ IF ref = <<>> THEN ref' = <<got>>
               ELSE /\ ref' = ref
                    /\ Check("code", got.rc = ref[1].rc, ref[1].rc)
                    /\ Check("items", Same(ref[1].items, got.items), [gained |-> Gained(ref[1].items, got.items), lost |-> Lost(ref[1].items, got.items)])
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Bag \/ Observe)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
