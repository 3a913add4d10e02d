----------------------------- MODULE T_Dynamics -----------------------------
EXTENDS Dynamics, TLC, Json, IOUtils
VARIABLES l, cname, d, s, subs
vars == <<l, cname, d, s, subs>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Rej(f, exp) == PrintT("@@" \o ToJson([case |-> cname, field |-> f, line |-> l, expected |-> ToString(exp)]))
Check(f, ok, exp) == IF ok THEN TRUE ELSE Rej(f, exp)
Init == l = 1 /\ cname = "" /\ d = [kind |-> ""] /\ s = Empty /\ subs = <<>>
Case == E.ev = "case" /\ cname' = E.name /\ s' = Empty /\ subs' = <<>> /\ UNCHANGED d
Deck == E.ev = "deck" /\ d' = E /\ UNCHANGED <<cname, s, subs>>
Card == E.ev = "card" /\ s' = Take(s, E) /\ UNCHANGED <<cname, d, subs>>
Sub == E.ev = "sub" /\ subs' = Append(subs, E) /\ UNCHANGED <<cname, d, s>>
Pairs2(q) == {<<q[i][1], q[i][2]>> : i \in DOMAIN q}
Analysis(x) ==
  /\ Check("held", Pairs2(E.spc) = Held(s, x.spc), Held(s, x.spc))
  /\ d.kind # "direct" => Check("modes", E.modes = Modes(s, x.method, d.cut), Modes(s, x.method, d.cut))
  /\ d.kind # "modal" =>
       /\ Check("frequencies", Range(E.freq) = Frequencies(s, x.freq), Frequencies(s, x.freq))
       /\ Check("sorted", \A i \in 1..(Len(E.freq) - 1) : E.freq[i] < E.freq[i + 1], E.freq)
       /\ Check("spread", E.spread = Spread(s, x.freq), Spread(s, x.freq))
       /\ Check("excitations", Same(E.exc, Excitation(s, x.dload)), Excitation(s, x.dload))
       /\ d.kind = "response" =>
            /\ Check("damping", E.damp = Damping(s, x.damp), Damping(s, x.damp))
            /\ LET want == IF x.residual THEN {<<q[1], q[2]>> : q \in Range(Excitation(s, x.dload))} ELSE {} IN Check("static modes", Pairs2(E.residual) = want, want)
Obs == /\ E.ev = "obs" /\ UNCHANGED <<cname, d, s, subs>>
       /\ CASE E.o = "problem" -> Rej("problem", E.what)
            [] E.o = "analyses" -> Check("analyses", E.ids = [i \in DOMAIN subs |-> subs[i].id], subs)
            [] E.o = "analysis" -> LET x == SelectSeq(subs, LAMBDA y : y.id = E.id) IN IF Len(x) # 1 THEN Rej("analysis", E.id) ELSE Analysis(x[1])
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Case \/ Deck \/ Card \/ Sub \/ Obs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
