------------------------------- MODULE Results -------------------------------
(* A reference result file, read line by line, and the checks it stands for.  *)
(* A deck is [kind, subs, grids, solid, low]: its subcases (<<>> when it has  *)
(* none), its grid points [id, d (components 0, 3 or 6), cd], the cell of its *)
(* solid (0: none) and the least frequency of interest.                       *)
(* A line is a record: heading [sc] (0: names no subcase), step [t], freq [t],*)
(* title [sec], row, mode, stress, blank, text; a table of Code_Aster has     *)
(* lines [r, t, g, cols, v]: result, instant, grid point, components, values. *)
(* A check is <<analysis, kind, grid, component or mode, where, value, imag>> *)
EXTENDS Integers, Sequences
Start == [sc |-> 0, step |-> -1, freq |-> -1, sec |-> "none", out |-> <<>>]
Analysis(d, sc) == IF d.subs = <<>> THEN 0 ELSE sc
Asked(d, sc) == IF d.subs = <<>> THEN sc = 0 ELSE \E i \in DOMAIN d.subs : d.subs[i] = sc
Has(d, g) == \E i \in DOMAIN d.grids : d.grids[i].id = g
Grid(d, g) == d.grids[CHOOSE i \in DOMAIN d.grids : d.grids[i].id = g]
(* components in the displacement frame of the grid point -> global components; all frames stand at the origin, grid points on the y axis *)
Turn(cd, v) == CASE cd = 0 -> v
                 [] cd = 1 -> <<v[3], v[1], v[2]>>     \* axes along Y, Z, X
                 [] cd = 2 -> <<-v[1], -v[2], v[3]>>
                 [] cd = 3 -> <<-v[2], v[1], v[3]>>    \* cylindrical: radius along Y, angle along -X
Six(cd, v) == Turn(cd, SubSeq(v, 1, 3)) \o Turn(cd, SubSeq(v, 4, 6))
Rows(d, s, e, kind, where, re, im) ==
  LET g == Grid(d, e.g) a == Six(g.cd, re) b == Six(g.cd, im)
  IN [c \in 1..g.d |-> <<Analysis(d, s.sc), kind, e.g, c, where, a[c], b[c]>>]
Zeros == <<0, 0, 0, 0, 0, 0>>
Mode(d, s, e) ==
  LET an == Analysis(d, s.sc) IN
  IF d.kind = "buckling" THEN <<<<an, "buckling", 0, e.n, 0, e.eig, 0>>>>
  ELSE IF e.cyc < d.low THEN <<>>   \* this mode is not computed
  ELSE <<<<an, "frequency", 0, e.n, 0, e.cyc, 0>>, <<an, "mass", 0, e.n, 0, e.mass, 0>>>> \o
       (IF e.mass = 1000 THEN <<>> ELSE <<<<an, "stiffness", 0, e.n, 0, e.stiff, 0>>>>)   \* says the same as the frequency otherwise
Checks(d, s, e) ==
  IF ~Asked(d, s.sc) THEN <<>>
  ELSE CASE e.l = "row" /\ s.sec = "displacement" -> (IF e.t = "G" /\ Has(d, e.g) THEN Rows(d, s, e, "displacement", s.step, e.v, Zeros) ELSE <<>>)
         [] e.l = "row" /\ s.sec = "complex" -> (IF e.t = "G" /\ Has(d, e.g) THEN Rows(d, s, e, "complex", s.freq, e.v, e.w) ELSE <<>>)
         [] e.l = "mode" /\ s.sec = "eigenvalues" -> Mode(d, s, e)
         [] e.l = "stress" /\ s.sec = "stress" -> (IF e.e = d.solid THEN [i \in DOMAIN e.gs |-> <<Analysis(d, s.sc), "mises", e.gs[i], e.e, 0, e.v[i], 0>>] ELSE <<>>)
         [] e.l = "line of a table" -> (IF Has(d, e.g) THEN LET cs == SelectSeq(e.cols, LAMBDA c : c <= Grid(d, e.g).d)
                                         IN [i \in DOMAIN cs |-> <<e.r, "displacement", e.g, cs[i], IF e.t < 0 THEN 0 ELSE e.t, e.v[cs[i]], 0>>] ELSE <<>>)
         [] OTHER -> <<>>
Read(d, s, e) ==
  CASE e.l = "heading" -> [s EXCEPT !.sc = IF e.sc # 0 THEN e.sc ELSE @, !.step = IF e.sc # 0 THEN -1 ELSE @, !.sec = "none"]
    [] e.l = "step" -> [s EXCEPT !.step = e.t]
    [] e.l = "freq" -> [s EXCEPT !.freq = e.t]
    [] e.l = "title" -> [s EXCEPT !.sec = e.sec]
    [] e.l = "text" -> [s EXCEPT !.sec = "none"]
    [] e.l = "blank" -> s
    [] e.l = "line of a table" -> [s EXCEPT !.out = @ \o Checks(d, [s EXCEPT !.sc = e.r], e)]
    [] OTHER -> [s EXCEPT !.out = @ \o Checks(d, s, e)]
(* the same checks, as often, in whatever order *)
Count(s, x) == LET RECURSIVE n(_) n(i) == IF i = 0 THEN 0 ELSE (IF s[i] = x THEN 1 ELSE 0) + n(i - 1) IN n(Len(s))
=============================================================================
