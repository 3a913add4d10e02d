----------------------------- MODULE MC_Results -----------------------------
(* The reader as it is built: a main loop that keeps the subcase, and section *)
(* readers that eat the line they stop at and hand back the subcase found on  *)
(* it. What it gathers is compared with the meaning of the file.              *)
EXTENDS Results
CONSTANTS Variant, Lines
VARIABLES file, s, at, cur, step, got
vars == <<file, s, at, cur, step, got>>
D == [kind |-> "nonlinear", subs |-> <<1, 2>>, grids |-> <<[id |-> 1, d |-> 1, cd |-> 0], [id |-> 2, d |-> 1, cd |-> 2]>>, solid |-> 0, low |-> 0]
Values == {<<1, 0, 0, 0, 0, 0>>, <<-2, 0, 0, 0, 0, 0>>}
Alphabet == [l : {"heading"}, sc : {1, 2, 3}, page : BOOLEAN] \cup [l : {"step"}, t : {5}] \cup [l : {"title"}, sec : {"displacement", "other"}]
            \cup [l : {"row"}, g : {1, 9}, t : {"G", "S"}, v : {<<1, 0, 0, 0, 0, 0>>}] \cup [l : {"row"}, g : {2}, t : {"G"}, v : Values] \cup [l : {"text", "blank"}]
(* pages: a title stands behind the heading of its page *)
Allowed(e) == LET n == Len(file) prev == IF n = 0 THEN "none" ELSE file[n] IN
  CASE e.l = "title" -> prev \in {"heading", "step"}
    [] e.l = "step" -> prev = "heading"
    [] e.l = "row" -> prev \in {"title", "row", "blank"} /\ s.sec # "none"
    [] OTHER -> TRUE
Init == file = <<>> /\ s = Start /\ at = "main" /\ cur = 0 /\ step = -1 /\ got = <<>>
Found(e) == IF Variant = "lost" THEN 0 ELSE e.sc
Reader(e) ==
  IF at = "main" THEN
    /\ CASE e.l = "heading" -> cur' = e.sc /\ step' = -1 /\ UNCHANGED at
         [] e.l = "step" -> step' = e.t /\ UNCHANGED <<at, cur>>
         [] e.l = "title" /\ e.sec = "displacement" -> at' = "section" /\ UNCHANGED <<cur, step>>
         [] OTHER -> UNCHANGED <<at, cur, step>>
    /\ UNCHANGED got
  ELSE
    CASE e.l = "blank" -> UNCHANGED <<at, cur, step, got>>
      [] e.l = "heading" -> /\ at' = "main" /\ UNCHANGED got
                            \* the line of the page comes first: the heading is then left to the main loop
                            /\ cur' = (IF e.page THEN e.sc ELSE Found(e)) /\ step' = (IF e.page \/ Variant # "step" THEN -1 ELSE step)
      [] e.l = "row" /\ e.t = "G" /\ Has(D, e.g) -> /\ UNCHANGED <<at, cur, step>>
                            /\ got' = (IF Asked(D, cur) THEN got \o Rows(D, [sc |-> cur], e, "displacement", step, e.v, Zeros) ELSE IF Variant = "first" THEN got \o Rows(D, [sc |-> 1], e, "displacement", step, e.v, Zeros) ELSE got)
      [] e.l = "row" -> at' = (IF Variant = "stop" THEN "main" ELSE at) /\ UNCHANGED <<cur, step, got>>
      [] OTHER -> at' = "main" /\ UNCHANGED <<cur, step, got>>
Add == /\ Len(file) < Lines
       /\ \E e \in Alphabet : Allowed(e) /\ file' = Append(file, e.l) /\ s' = Read(D, s, e) /\ Reader(e)
Next == Add
Spec == Init /\ [][Next]_vars
Same == got = s.out
Heard == at = "main" => cur = s.sc
=============================================================================
