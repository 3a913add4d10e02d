----------------------------- MODULE MC_Runner -----------------------------
(* The translator as a state machine: calls follow one another in the same    *)
(* output directory, the solver may start only behind a complete translation, *)
(* and the exit code is worked out from what is found in the directory.       *)
EXTENDS Runner
CONSTANTS Variant, Calls
VARIABLES pc, call, inputs, results, ended, code, started, left
vars == <<pc, call, inputs, results, ended, code, started, left>>
Opt(a, b) == [cmd |-> a, cfg |-> b]
Solvers == [found : BOOLEAN, how : {"exit", "signal"}, n : {0, 1, 4, 127, 137}, res : BOOLEAN, nook : BOOLEAN, err : BOOLEAN]
Sane == {s \in Solvers : (~s.found => s.how = "exit" /\ s.n = 0 /\ ~s.res /\ ~s.nook /\ ~s.err) /\ (s.how = "signal" => s.n = 0) /\ (s.nook => s.res)}
Cmds == {[product |-> p, matrix |-> m] : p \in {Opt("", ""), Opt("topaze", "systus"), Opt("systus", "topaze"), Opt("wrong", "systus"), Opt("systus", "wrong")},
                                         m \in {Opt("", ""), Opt("", "file")}}
Init == pc = "idle" /\ call = [target |-> "none"] /\ inputs = "none" /\ results \in {"none", "ok", "nook"} /\ ended = "no" /\ code = -1 /\ started = 0 /\ left = Calls
Ask == /\ pc = "idle" /\ left > 0 /\ left' = left - 1
       /\ \E t \in {"ASTER", "NASTRAN", "SYSTUS"} : \E o \in Cmds : \E d \in {"good", "bad", "missing"} : \E s \in BOOLEAN : \E r \in BOOLEAN : \E k \in {"ok", "refused"} : \E v \in Sane :
            /\ (t # "SYSTUS" => ~v.err)
            /\ call' = [target |-> t, opts |-> o, deck |-> d, strict |-> s, run |-> r, test |-> "none", dir |-> k, solver |-> v]
       /\ pc' = "asked" /\ inputs' = "none" /\ ended' = "no" /\ code' = -1 /\ started' = 0 /\ UNCHANGED results
Pick(o) == IF Variant = "override" /\ o.cfg # "" THEN o.cfg ELSE IF o.cmd # "" THEN o.cmd ELSE o.cfg
Options == /\ pc = "asked" /\ UNCHANGED <<call, inputs, results, ended, started, left>>
           /\ LET p == Pick(call.opts.product) IN
              IF p \in {"", "systus", "topaze"} THEN pc' = "options" /\ UNCHANGED code ELSE pc' = "exit" /\ code' = BadOptions
Files == /\ pc = "options" /\ UNCHANGED <<call, inputs, results, ended, started, left>>
         /\ IF call.deck = "missing" THEN pc' = "exit" /\ code' = NoInput
            ELSE IF call.dir = "refused" THEN pc' = "exit" /\ code' = NoOutputDir ELSE pc' = "files" /\ UNCHANGED code
Translate == /\ pc = "files" /\ UNCHANGED <<call, results, ended, started, left>>
             /\ IF call.deck = "bad" /\ call.strict THEN pc' = "exit" /\ code' = ParsingError /\ UNCHANGED inputs
                ELSE /\ inputs' = IF Variant = "eager" THEN "partial" ELSE "complete"
                     /\ IF call.run THEN pc' = "clean" /\ UNCHANGED code ELSE pc' = "exit" /\ code' = OK
Clean == /\ pc = "clean" /\ pc' = "start" /\ results' = (IF Variant = "stale" THEN results ELSE "none") /\ UNCHANGED <<call, inputs, ended, code, started, left>>
Solve == /\ pc = "start" /\ pc' = "solved" /\ started' = started + 1 /\ UNCHANGED <<call, inputs, code, left>>
         /\ ended' = IF ~call.solver.found THEN "127" ELSE IF call.solver.how = "signal" THEN "signal" ELSE "status"
         /\ results' = IF ~call.solver.res THEN results ELSE IF call.solver.nook THEN "nook" ELSE "ok"
Report == /\ pc = "solved" /\ pc' = "exit" /\ inputs' = "complete" /\ UNCHANGED <<call, results, ended, started, left>>
          /\ code' = LET s == call.solver
                         st == IF ended = "signal" THEN 128 + 9 ELSE IF ended = "127" THEN 127 ELSE s.n
                         e == IF st = 0 THEN OK ELSE IF st = 127 THEN NotFound ELSE IF st > 128 THEN Killed ELSE IF st = 4 /\ call.target = "ASTER" THEN SyntaxError ELSE Failed
                     IN IF call.target = "SYSTUS" /\ s.err /\ (e = OK \/ Variant = "mask") THEN Failed
                        ELSE IF e # OK \/ call.target = "NASTRAN" THEN e
                        ELSE IF results = "none" THEN (IF call.target = "SYSTUS" /\ Effective(call, "product") = "topaze" THEN OK ELSE NoResult)
                        ELSE IF results = "nook" THEN TestFailed ELSE OK
Exit == pc = "exit" /\ pc' = "idle" /\ call' = [target |-> "none"] /\ inputs' = "none" /\ ended' = "no" /\ code' = -1 /\ started' = 0 /\ UNCHANGED <<results, left>>
Next == Ask \/ Options \/ Files \/ Translate \/ Clean \/ Solve \/ Report \/ Exit
Spec == Init /\ [][Next]_vars
(* what a user relies on *)
Asked == started > 0 => call.run /\ Translation(call) = OK
Complete == pc = "start" => inputs = "complete"
Reported == pc = "exit" => code = Code(call) /\ started = (IF Started(call) THEN 1 ELSE 0)
=============================================================================
