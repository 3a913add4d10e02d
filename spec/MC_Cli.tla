------------------------------- MODULE MC_Cli --------------------------------
(* A front end that looks at one thing after the other and stops at the first   *)
(* error (the order is left open), compared with what Cli.tla allows it to end  *)
(* with.  Late = TRUE: one that writes before it has looked at everything.      *)
EXTENDS Cli, TLC
CONSTANT Late
VARIABLES r, todo, code, written
vars == <<r, todo, code, written>>
Stages == {"command", "input", "test", "outdir", "parse"}
Small == [input : Inputs, modes : {{}, {"b"}, {"s"}, {"m", "s"}}, extra : {"", "unknown", "testmissing", "help", Refused("systus.Subcase"), Accepted("tolerance")}, out : {"new", "uncreatable"}, from : {"NASTRAN", "BOGUS", ""}, to : {"ASTER", "BOGUS", ""}]
Init == r \in {x \in Small : Spelt(x)} /\ todo = Stages /\ code = -1 /\ written = FALSE
Fails(s) == CASE s = "command" -> BAD_COMMAND \in Wrong(r) [] s = "input" -> r.input \in {"none", "missing"} [] s = "test" -> r.extra = "testmissing"
              [] s = "outdir" -> r.out = "uncreatable" [] s = "parse" -> PARSING \in Wrong(r)
CodeOf(s) == CASE s = "command" -> BAD_COMMAND [] s \in {"input", "test"} -> NO_INPUT [] s = "outdir" -> NO_OUTDIR [] s = "parse" -> PARSING
\* what cannot be understood is refused before anything else; reading the deck needs everything else
Ready(s) == /\ (Syntax(r) => s = "command") /\ (s = "parse" => todo = {"parse"})
Inform == code = -1 /\ Ends(r) /\ code' = OK /\ UNCHANGED <<r, todo, written>>
Look(s) == code = -1 /\ ~Ends(r) /\ s \in todo /\ Ready(s) /\ ~Fails(s) /\ todo' = todo \ {s} /\ UNCHANGED <<r, code, written>>
Stop(s) == code = -1 /\ ~Ends(r) /\ s \in todo /\ Ready(s) /\ Fails(s) /\ code' = CodeOf(s) /\ UNCHANGED <<r, todo, written>>
LookAt == \E s \in Stages : Look(s)
StopAt == \E s \in Stages : Stop(s)
Write == code = -1 /\ ~Ends(r) /\ (IF Late THEN "command" \notin todo ELSE todo = {}) /\ ~written /\ written' = TRUE /\ UNCHANGED <<r, todo, code>>
Leave == code = -1 /\ written /\ todo = {} /\ code' = OK /\ UNCHANGED <<r, todo, written>>
Next == Inform \/ LookAt \/ StopAt \/ Write \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
CodeTold == code # -1 => code \in Codes(r)
WrittenTold == code # -1 => written = Written(r)
ZeroOnlyForSuccess == (code = OK) => (Ends(r) \/ NErr(r) = 0)
Ended == <>(code # -1)
=============================================================================
