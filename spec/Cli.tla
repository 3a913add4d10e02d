--------------------------------- MODULE Cli ---------------------------------
(* The command line: what is wrong with a request and the code it ends with.   *)
(* The code is 0 exactly when nothing is wrong, otherwise it is the code of     *)
(* something that is wrong, and the codes of different errors differ.           *)
EXTENDS Integers, FiniteSets, Sequences
Inputs == {"none", "missing", "good", "faulty"}           \* no input file given, not there, well formed deck, deck with a malformed card
ModeSets == SUBSET {"b", "m", "s"}
(* options whose values are checked: every one with an accepted and with a refused value *)
Options == {"nastran.OutputDialect", "systus.DynamicMethod", "systus.RBE2TranslationMode", "systus.OptionAnalysis", "systus.OutputProduct", "systus.OutputMatrix", "systus.Subcase", "systus.SizeMatrix", "tolerance", "verbosity"}
Unlimited == {"tolerance", "verbosity"}                    \* any value of the right type
Accepted(o) == "good:" \o o
Refused(o) == "bad:" \o o
Simple == {"", "unknown", "badvalue", "toomany", "testmissing", "help", "version", "config"}
Extras == Simple \cup {Accepted(o) : o \in Options} \cup {Refused(o) : o \in Options \ Unlimited}
Outdirs == {"there", "new", "newslash", "deep", "uncreatable"}
Formats == {"NASTRAN", "OPTISTRUCT", "BOGUS", ""}
Targets == {"ASTER", "NASTRAN", "SYSTUS", "BOGUS", ""}
Requests == [input : Inputs, modes : ModeSets, extra : Extras, out : Outdirs, from : Formats, to : Targets]
OK == 0  NO_INPUT == 2  NO_OUTDIR == 3  BAD_COMMAND == 4  PARSING == 6
Ends(r) == r.extra \in {"help", "version"}
Positional(r) == r.input # "none" \/ (r.from = "" /\ r.to = "")
(* the command line itself cannot be understood *)
Syntax(r) == r.extra \in {"unknown", "badvalue", "toomany"}
Wrong(r) ==
  (IF r.input \in {"none", "missing"} \/ r.extra = "testmissing" THEN {NO_INPUT} ELSE {})
  \cup (IF Syntax(r) \/ r.extra \in {Refused(o) : o \in Options \ Unlimited} \/ Cardinality(r.modes) > 1 \/ r.from = "BOGUS" \/ r.to = "BOGUS" THEN {BAD_COMMAND} ELSE {})
  \cup (IF r.out = "uncreatable" THEN {NO_OUTDIR} ELSE {})
  \cup (IF r.input = "faulty" /\ r.modes = {"s"} THEN {PARSING} ELSE {})
Codes(r) == IF Ends(r) THEN {OK}
            ELSE IF Syntax(r) THEN {BAD_COMMAND}
            ELSE IF Wrong(r) = {} THEN {OK} ELSE Wrong(r)
(* a translation is written exactly when the request ends well *)
Written(r) == ~Ends(r) /\ Wrong(r) = {}
(* requests that can be spelt: formats are positional and follow an input file *)
Spelt(r) == /\ (r.input = "none" => r.from = "" /\ r.to = "") /\ (r.from = "" => r.to = "")
            /\ (r.extra = "toomany" => r.to # "")
NErr(r) == Cardinality(Wrong(r))
=============================================================================
