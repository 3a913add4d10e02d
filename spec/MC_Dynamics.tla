---------------------------- MODULE MC_Dynamics ----------------------------
(* The reader as it is built: cards arrive in any order and are kept under   *)
(* their numbers, references are followed only when all is read, then the    *)
(* DLOAD cards are resolved one after the other - each scaled excitation     *)
(* gets a table of its own - and the frequency cards of a set are merged     *)
(* into one sorted list. The result is compared with Dynamics.               *)
EXTENDS Dynamics
CONSTANTS Variant, Cards
VARIABLES s, tables, exc, sets, lists, stage
vars == <<s, tables, exc, sets, lists, stage>>
T(i, y) == [k |-> "table", id |-> i, xlog |-> FALSE, ylog |-> FALSE, pts |-> <<[x |-> 0, y |-> y, skip |-> FALSE], [x |-> 5, y |-> 9, skip |-> TRUE], [x |-> 10, y |-> 2 * y, skip |-> FALSE]>>]
A(i, g) == [k |-> "area", id |-> i, g |-> g, c |-> 1, a |-> 1]
L(i, a, t) == [k |-> "rload", id |-> i, area |-> a, table |-> t, phase |-> 0]
D(i, f, q) == [k |-> "dload", id |-> i, s |-> f, terms |-> q]
Fq(i, v) == [k |-> "freq", id |-> i, how |-> "list", v |-> v]
Fs(i, a, b, n) == [k |-> "freq", id |-> i, how |-> "step", start |-> a, step |-> b, n |-> n]
Pool == <<T(1, 3), A(7, 2), A(7, 3), L(1, 7, 1), L(2, 7, 1), D(3, 4, <<[s |-> 2, id |-> 1], [s |-> 6, id |-> 2]>>), D(4, 2, <<[s |-> 2, id |-> 1]>>), Fq(1, <<9, 3, 5>>), Fs(1, 1, 2, 3), T(2, 5), L(5, 7, 2), D(6, 2, <<[s |-> 4, id |-> 5], [s |-> 8, id |-> 2], [s |-> 2, id |-> 1]>>), Fq(1, <<7, 2>>)>>
Init == s = Empty /\ tables = [x \in {} |-> 0] /\ exc = [x \in {} |-> 0] /\ sets = [x \in {} |-> 0] /\ lists = [x \in {} |-> 0] /\ stage = {}
Put(f, i, v) == [x \in DOMAIN f \cup {i} |-> IF x = i THEN v ELSE f[x]]
Get(f, i) == IF i \in DOMAIN f THEN f[i] ELSE <<>>
(* insertion of a value in an increasing list without repetitions *)
Into(q, v) == LET RECURSIVE f(_)
                  f(i) == IF i > Len(q) THEN <<v>> ELSE IF q[i] = v THEN SubSeq(q, i, Len(q)) ELSE IF v < q[i] THEN <<v>> \o SubSeq(q, i, Len(q)) ELSE <<q[i]>> \o f(i + 1)
              IN f(1)
Merge(q, c) == LET v == IF c.how = "list" THEN c.v ELSE [i \in 1..(c.n + 1) |-> c.start + (i - 1) * c.step]
                   RECURSIVE f(_, _) f(r, i) == IF i > Len(v) THEN r ELSE f(Into(r, v[i]), i + 1)
               IN f(q, 1)
Read == \E i \in (1..Cards) \ stage : LET c == Pool[i] IN
  /\ 0 \notin stage /\ stage' = stage \cup {i} /\ s' = Take(s, c)
  /\ tables' = IF c.k = "table" THEN Put(tables, <<0, c.id, 0>>, Pairs(c)) ELSE tables
  \* an excitation names its table and its loads; it is a set of its own
  /\ exc' = CASE c.k = "rload" -> Put(exc, <<0, c.id, 0>>, [table |-> <<0, c.table, 0>>, area |-> IF Variant = "order" THEN Of(s.area, c.area) ELSE c.area])
              [] OTHER -> exc
  /\ sets' = CASE c.k = "rload" -> Put(sets, c.id, <<<<0, c.id, 0>>>>) [] OTHER -> sets
  /\ lists' = IF c.k = "freq" /\ ~(Variant = "first" /\ Get(lists, c.id) # <<>>) THEN Put(lists, c.id, Merge(Get(lists, c.id), c)) ELSE lists
(* the loads are looked for when everything is read; then one DLOAD after another *)
End == stage = 1..Cards /\ stage' = stage \cup {0} /\ UNCHANGED <<s, tables, lists, sets>>
       /\ exc' = [x \in DOMAIN exc |-> IF Variant = "order" THEN exc[x] ELSE [exc[x] EXCEPT !.area = Of(s.area, exc[x].area)]]
Todo == {d.id : d \in Range(s.dload)} \ DOMAIN sets
Combine == 0 \in stage /\ \E id \in Todo : LET d == Of(s.dload, id)[1] IN
  LET RECURSIVE f(_, _, _, _)
      f(i, t, x, q) ==
        IF i > Len(d.terms) THEN /\ tables' = t /\ exc' = x /\ sets' = Put(sets, id, q)
        ELSE LET u == d.terms[i] c == d.s * u.s key == <<0, u.id, 0>> old == x[key] new == <<1, id, i>> p == t[old.table]
                 sc == [j \in DOMAIN p |-> <<p[j][1], (c * p[j][2]) \div 4>>]
             IN IF c = 4 THEN f(i + 1, t, x, q \o <<key>>)
                ELSE IF Variant = "shared" THEN f(i + 1, Put(t, old.table, sc), x, q \o <<key>>)
                ELSE f(i + 1, Put(t, new, sc), Put(x, new, [old EXCEPT !.table = new]), q \o (IF Variant = "twice" THEN <<key, new>> ELSE <<new>>))
  IN f(1, tables, exc, <<>>) /\ UNCHANGED <<s, lists, stage>>
Next == Read \/ End \/ Combine
Spec == Init /\ [][Next]_vars
Written(id) == Flat([i \in DOMAIN sets[id] |-> LET x == exc[sets[id][i]] p == tables[x.table] IN
                     [j \in DOMAIN x.area |-> <<x.area[j].g, x.area[j].c, [n \in DOMAIN p |-> <<p[n][1], 4 * x.area[j].a * p[n][2]>>], FALSE, FALSE, 0>>]])
Finished == 0 \in stage /\ Todo = {}
Resolved == Finished => \A id \in DOMAIN sets : Same(Written(id), Excitation(s, id))
Listed == Finished => \A id \in DOMAIN lists : Range(lists[id]) = Frequencies(s, id) /\ \A i \in 1..(Len(lists[id]) - 1) : lists[id][i] < lists[id][i + 1]
=============================================================================
