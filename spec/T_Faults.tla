------------------------------ MODULE T_Faults ------------------------------
(* Trace validation of decks with faulty cards: the outcome of Faults, and    *)
(* the content of T_Deck with faulty cards passed over.                       *)
EXTENDS T_Deck, Faults
VARIABLES mode, faulty
vf == <<vars, mode, faulty>>
CaseF == Case /\ mode' = E.mode /\ faulty' = FALSE
CardF == /\ E.ev = "card" /\ d' = ReadF(d, E) /\ faulty' = (faulty \/ IsFault(E)) /\ UNCHANGED <<cname, mode>>
ObsF == /\ E.ev = "obs"
        /\ IF E.o = "code"
           THEN /\ Check("code", IF AnyConflict(d) THEN E.rc # OK ELSE E.rc = Code(mode, faulty), Code(mode, faulty))
                /\ Check("written", AnyConflict(d) \/ E.written = (Code(mode, faulty) = OK), Code(mode, faulty) = OK)
                /\ UNCHANGED <<d, cname, mode, faulty>>
           ELSE Observe /\ UNCHANGED <<mode, faulty>>
NextF == l <= Len(Trace) /\ l' = l + 1 /\ (CaseF \/ CardF \/ ObsF)
SpecF == Init /\ mode = "best" /\ faulty = FALSE /\ [][NextF]_vf
=============================================================================
