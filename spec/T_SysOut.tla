------------------------------ MODULE T_SysOut ------------------------------
(* Trace validation: cards fed in, Systus model files read back. *)
EXTENDS SysOut, Json, IOUtils, SequencesExt
VARIABLES l, d, cname
vars == <<l, d, cname>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ d = EmptyDeck /\ cname = ""
Case == /\ E.ev = "case" /\ d' = EmptyDeck /\ cname' = E.name
Card == /\ E.ev = "card" /\ d' = Read(d, E) /\ UNCHANGED cname
(* a deck without subcases has one analysis, without a number *)
SysId(i) == IF d.subs = <<>> THEN 0 ELSE AnId(d, i)
AnIx(label) == {i \in 1..NAn(d) : SysId(i) = label}
ObsSpc(i, o) == LET S == {<<x[1], x[2]>> : x \in Range(o.blocked)} IN
  /\ Check("blocked-missing", MustBlock(d, i) \subseteq S, MustBlock(d, i) \ S)
  /\ Check("blocked-extra", \A x \in S \ MayBlock(d, i) : x[2] \notin NodeDofs(d, x[1]), S \ MayBlock(d, i))
ObsImp(i, o) == LET I == {<<<<x[1], x[2]>>, x[3]>> : x \in Range(o.list)}
                    X == UNION {{<<b, v>> : v \in Values(d, i, b)} : b \in MustBlock(d, i)}
                    Old == UNION {{<<b, v>> : v \in SpcVal(d, i, b)} : b \in MustBlock(d, i)}
                    On == {x \in I : x[1] \in MustBlock(d, i)} IN
  /\ Check("imposed-missing", X \subseteq On, X)
  /\ Check("imposed-extra", On \subseteq X \cup Old, X)
ObsLoad(i, o) == LET N == {<< <<x[1], x[2]>>, x[3]>> : x \in Range(o.force)}
                     X == {x \in ExpNodal(d, i) : x[1][2] \in ModelDofs(d)}
                     G == {<<x[1], x[2]>> : x \in Range(o.grav)} IN
  /\ Check("force", N = X, X)
  /\ LET P == LoadParts(d, Sel(d, i).load) n == Cardinality({<<g, p>> \in d.grav \X P : g[1] = p[1]}) IN
     n > 1 \/ Check("gravity", G = ExpGrav(d, i), ExpGrav(d, i))
Observe ==
  /\ E.ev = "obs" /\ UNCHANGED <<d, cname>>
  /\ CASE E.o = "outcome" -> Check("outcome", E.ok = ~AnyConflict(d), ~AnyConflict(d))
       [] E.o = "problem" -> Rej("problem", E.what)
       [] E.o = "syscases" -> Check("cases", Range(E.list) = {SysId(i) : i \in 1..NAn(d)} /\ E.once, NAn(d))
       [] AnIx(E.label) = {} -> Rej("analysis", {SysId(i) : i \in 1..NAn(d)})
       [] E.o = "sysspc" -> \A i \in AnIx(E.label) : ObsSpc(i, E)
       [] E.o = "sysimp" -> \A i \in AnIx(E.label) : ObsImp(i, E)
       [] E.o = "sysload" -> \A i \in AnIx(E.label) : ObsLoad(i, E)
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Card \/ Observe)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
