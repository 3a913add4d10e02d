------------------------------ MODULE Dynamics ------------------------------
(* The cards of modal and frequency response analyses, in whatever order they *)
(* stand, and what each analysis keeps of them: the modes looked for, the     *)
(* frequencies, the damping, the excitations with their scale factors, and    *)
(* the static modes of the excitations when they are asked for.               *)
(* Factors are counted in quarters, frequencies in tenths, damping in units   *)
(* of 1/2000 of the critical one.                                             *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [table |-> <<>>, area |-> <<>>, rload |-> <<>>, dload |-> <<>>, search |-> <<>>, freq |-> <<>>, damp |-> <<>>, spc |-> <<>>]
Take(s, e) == [s EXCEPT ![e.k] = Append(@, e)]
Of(q, id) == SelectSeq(q, LAMBDA x : x.id = id)
Range(q) == {q[i] : i \in DOMAIN q}
Flat(q) == LET RECURSIVE f(_) f(i) == IF i = 0 THEN <<>> ELSE f(i - 1) \o q[i] IN f(Len(q))
(* pairs of a table, those that are skipped left out *)
Pairs(t) == LET p == SelectSeq(t.pts, LAMBDA x : ~x.skip) IN [i \in DOMAIN p |-> <<p[i].x, p[i].y>>]
Scaled(t, f) == LET p == Pairs(t) IN [i \in DOMAIN p |-> <<p[i][1], f * p[i][2]>>]
(* one load of one component of a grid point: <<grid, component, pairs, log x, log y, phase>> *)
Loads(s, r, f) ==
  LET t == Of(s.table, r.table)[1] a == Of(s.area, r.area)
  IN [i \in DOMAIN a |-> <<a[i].g, a[i].c, Scaled(t, f * a[i].a), t.xlog, t.ylog, r.phase>>]
Excitation(s, id) ==
  IF Of(s.rload, id) # <<>> THEN Loads(s, Of(s.rload, id)[1], 4)
  ELSE LET d == Of(s.dload, id)[1]
       IN Flat([i \in DOMAIN d.terms |-> Loads(s, Of(s.rload, d.terms[i].id)[1], d.s * d.terms[i].s)])
Max(a, b) == IF a < b THEN b ELSE a
Infinite == 2000000000
Upper(a, b) == IF a < 0 THEN b ELSE IF b < 0 THEN a ELSE IF a < b THEN a ELSE b
(* the modes of an eigenvalue card: how many (0: all), in which band, how they are normalized *)
Modes(s, id, cut) ==
  LET x == Of(s.search, id)[1]
  IN [n |-> IF x.n > 0 THEN x.n ELSE IF x.hi < 0 THEN 1 ELSE 0, lo |-> Max(Max(x.lo, 0), cut.lo), hi |-> Upper(x.hi, cut.hi),
      norm |-> IF x.norm = "MAX" THEN "MAX" ELSE "MASS"]
(* the frequencies of all the cards of a set *)
Values(x) == IF x.how = "list" THEN Range(x.v) ELSE {x.start + i * x.step : i \in 0..x.n}
Spread(s, id) == LET q == Of(s.freq, id) IN IF q[1].how = "spread" THEN <<q[1].start, q[1].end, q[1].spread>> ELSE <<>>
Frequencies(s, id) == IF Spread(s, id) # <<>> THEN {} ELSE UNION {Values(x) : x \in Range(Of(s.freq, id))}
Damping(s, id) ==
  IF id = 0 THEN <<>>
  ELSE LET t == Of(s.damp, id)[1] IN Scaled(t, IF t.type = "CRIT" THEN 2 ELSE 1)   \* the ratio is half of the structural damping
Held(s, id) == {<<x.g, x.c>> : x \in Range(Of(s.spc, id))}
Moving(q) == SelectSeq(q, LAMBDA x : \E i \in DOMAIN x[3] : x[3][i][2] # 0)
Count(q, x) == LET RECURSIVE n(_) n(i) == IF i = 0 THEN 0 ELSE (IF q[i] = x THEN 1 ELSE 0) + n(i - 1) IN n(Len(q))
Same(p, q) == \A x \in Range(p) \cup Range(q) : Count(p, x) = Count(q, x)
=============================================================================
