------------------------------ MODULE T_Props ------------------------------
EXTENDS Props, Json, IOUtils
VARIABLES l, cname, D
vars == <<l, cname, D>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ cname = "" /\ D = {}
Case == E.ev = "case" /\ cname' = E.name /\ D' = {}
Card == E.ev = "card" /\ D' = D \cup {E} /\ UNCHANGED cname
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Obs == /\ E.ev = "obs" /\ UNCHANGED <<cname, D>>
  /\ CASE E.o = "problem" -> Rej("problem", E.what)
       [] E.o = "cells" -> LET es == ToSeqSorted({e.id : e \in Els(D)})
                               El(i) == CHOOSE e \in Els(D) : e.id = es[i]
                               ms == SelectSeq(es, LAMBDA j : HasMass(D, CHOOSE e \in Els(D) : e.id = j))
                               X == [i \in 1..Len(es) |-> Den(D, El(i))] \o [i \in 1..Len(ms) |-> MassDen(D, CHOOSE e \in Els(D) : e.id = ms[i])]
                               Bad == {X[i] : i \in {i \in 1..Len(X) : Count(X, X[i]) # Count(E.list, X[i])}} IN
            /\ Check("cells", Len(E.list) = Len(X), Len(X))
            /\ \A f \in {"mod", "beam", "coque", "ori", "mat"} :
                 Check(f, \A x \in Bad : \E j \in 1..Len(E.list) : E.list[j].n = x.n /\ E.list[j][f] = x[f], {<<x.n, x[f]>> : x \in Bad})
            /\ Check("bag", Bad = {}, {x.n : x \in Bad})
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Card \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
