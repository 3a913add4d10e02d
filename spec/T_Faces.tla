------------------------------ MODULE T_Faces ------------------------------
EXTENDS Faces, Json, IOUtils
VARIABLES l, cname, s, n
vars == <<l, cname, s, n>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ cname = "" /\ s = "" /\ n = <<>>
Case == E.ev = "case" /\ cname' = E.name /\ s' = "" /\ n' = <<>>
Elem == E.ev = "elem" /\ s' = E.shape /\ n' = E.n /\ UNCHANGED cname
Range(q) == {q[i] : i \in DOMAIN q}
Obs == /\ E.ev = "obs" /\ UNCHANGED <<cname, s, n>>
  /\ CASE E.o = "problem" -> Rej("problem", E.what)
       [] E.o = "faces" -> LET X == MedFaces(s, n) IN
            Check("faces", Len(E.list) = Cardinality(X) /\ {FaceKey(f, IsQuad(s, n)) : f \in Range(E.list)} = X, X)
       [] E.o = "corners" -> Check("corners", E.list = SubSeq(n, 1, NCorner(s)), n)
       [] E.o = "face" -> LET X == {FaceKey(WithMids(s, n, c), IsQuad(s, n)) : c \in Designated(s, E.a, E.b)} IN
            IF X = {} THEN Check("no face", E.list = <<>>, X)
            ELSE Check("face", E.list # <<>> /\ FaceKey(E.list, IsQuad(s, n)) \in X, X)
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Elem \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
