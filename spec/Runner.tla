------------------------------- MODULE Runner -------------------------------
(* A call of the translator: options from three sources, the translation, and *)
(* the run of a solver when it is asked for. A call is a record               *)
(*   target  ASTER, NASTRAN or SYSTUS                                         *)
(*   opts    the options: [name |-> [cmd |-> v, cfg |-> v]], "" when not said *)
(*   deck    good, bad (a card that is not understood) or missing             *)
(*   strict, run, test (none, present, missing), dir (ok, refused)            *)
(*   solver  what the solver does when it is started:                         *)
(*           [found, how (exit or signal), n, res (writes its results),       *)
(*            nook (a failed test in them), err (an ERROR line on its output)]*)
EXTENDS Integers, Sequences, FiniteSets
(* ---------------------------------------------------------------- options *)
Choices == [rbe2 |-> {"penalty", "lagrangian"}, method |-> {"auto", "direct", "modal"}, analysis |-> {"auto", "3D", "shell", "shell-multi"},
            product |-> {"systus", "topaze"}, matrix |-> {"table", "file"}, dialect |-> {"cosmic95", "modern"}]
Defaults == [rbe2 |-> "penalty", method |-> "auto", analysis |-> "auto", product |-> "systus", matrix |-> "table", dialect |-> "cosmic95",
             size |-> "", command |-> "", version |-> ""]
Names == DOMAIN Defaults
Said(c, n) == IF n \in DOMAIN c.opts THEN c.opts[n] ELSE [cmd |-> "", cfg |-> ""]
(* the command line comes before the configuration file, which comes before the default *)
First(o, d) == IF o.cmd # "" THEN o.cmd ELSE IF o.cfg # "" THEN o.cfg ELSE d
Effective(c, n) ==
  LET v == First(Said(c, n), Defaults[n]) IN
  IF v # "" THEN v
  ELSE CASE n = "size" -> (IF First(Said(c, "matrix"), "table") = "file" THEN "20" ELSE "9")
         [] n = "command" -> "as_run"
         [] n = "version" -> (IF c.target = "SYSTUS" THEN "2016" ELSE "")
OptionsOk(c) == \A n \in DOMAIN Choices : Effective(c, n) \in Choices[n]
(* ---------------------------------------------------------- exit code *)
OK == 0    Unexpected == 1    NoInput == 2    NoOutputDir == 3    BadOptions == 4    ParsingError == 6
NotFound == 100    SyntaxError == 101    Killed == 102    Failed == 103    NoResult == 104    TestFailed == 105
Translation(c) ==
  IF ~OptionsOk(c) THEN BadOptions
  ELSE IF c.test = "missing" \/ c.deck = "missing" THEN NoInput
  ELSE IF c.dir = "refused" THEN NoOutputDir
  ELSE IF c.deck = "bad" /\ c.strict THEN ParsingError ELSE OK
(* a shell tells that a command ended by signal s with the status 128 + s, and that it did not find it with 127 *)
Ended(c) ==
  LET s == c.solver IN
  IF ~s.found THEN NotFound
  ELSE IF s.how = "signal" THEN Killed
  ELSE CASE s.n = 0 -> OK
         [] s.n = 127 -> NotFound
         [] s.n \in 129..165 -> Killed
         [] s.n = 4 /\ c.target = "ASTER" -> SyntaxError
         [] OTHER -> Failed
(* what the results say, when the solver ended well: only those of this run count *)
Verdict(c) ==
  LET s == c.solver IN
  CASE c.target = "NASTRAN" -> OK
    [] c.target = "ASTER" -> (IF ~s.res THEN NoResult ELSE IF s.nook THEN TestFailed ELSE OK)
    [] OTHER -> (IF s.err THEN Failed ELSE IF ~s.res /\ Effective(c, "product") = "systus" THEN NoResult ELSE IF s.res /\ s.nook THEN TestFailed ELSE OK)
Started(c) == Translation(c) = OK /\ c.run
Code(c) == IF ~Started(c) THEN Translation(c) ELSE IF Ended(c) # OK THEN Ended(c) ELSE Verdict(c)
Program(c) == CASE c.target = "ASTER" -> Effective(c, "command") [] c.target = "NASTRAN" -> "nastran" [] OTHER -> "systus"
=============================================================================
