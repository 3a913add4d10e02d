------------------------------ MODULE MC_SysOut ------------------------------
(* How the model files come about: analyses that share their constraint sets  *)
(* are put in one file; in each file the load sets of its analyses get load   *)
(* cases, the amounts become vectors, and each node has one list of           *)
(* <<load case, vector>>. Reading a file back gives every analysis what its   *)
(* sets say.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NAn, Nodes, CSets, LSets, Bug
VARIABLES sel, todo, files, cur, lists, vecs, loads, mask, out, pc
vars == <<sel, todo, files, cur, lists, vecs, loads, mask, out, pc>>
Range(s) == {s[i] : i \in DOMAIN s}
(* what the sets hold *)
Blocks(c) == {n \in Nodes : (n + c) % 2 = 0 \/ n = c}
Amount(s, n) == IF (n + s) % 2 = 0 THEN 10 * s + n ELSE IF n = s THEN -7 ELSE 0
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + Sum(S \ {x})
(* the meaning of analysis a *)
MaskOf(a) == UNION {Blocks(c) : c \in sel[a].c}
ForceOf(a, n) == Sum({<<s, Amount(s, n)>> : s \in sel[a].l})

Init == /\ sel \in [1..NAn -> [c : SUBSET CSets, l : SUBSET LSets]]
        /\ todo = 1 /\ files = <<>> /\ cur = 0 /\ lists = [n \in Nodes |-> <<>>] /\ vecs = <<>> /\ loads = <<>> /\ mask = {} /\ out = <<>> /\ pc = "group"
Key(a) == IF Bug = "count" THEN Cardinality(sel[a].c) ELSE IF Bug = "loads" THEN sel[a] ELSE sel[a].c
Group == /\ pc = "group" /\ todo <= NAn /\ todo' = todo + 1
         /\ LET same == {f \in DOMAIN files : Key(files[f][1]) = Key(todo)} IN
            files' = IF same = {} THEN Append(files, <<todo>>) ELSE [files EXCEPT ![CHOOSE f \in same : \A g \in same : f <= g] = Append(@, todo)]
         /\ UNCHANGED <<sel, cur, lists, vecs, loads, mask, out, pc>>
Grouped == pc = "group" /\ todo > NAn /\ pc' = "next" /\ UNCHANGED <<sel, todo, files, cur, lists, vecs, loads, mask, out>>
Begin == /\ pc = "next" /\ cur < Len(files) /\ cur' = cur + 1 /\ pc' = "fill" /\ todo' = 1
         /\ (IF Bug = "stale" THEN UNCHANGED lists ELSE lists' = [n \in Nodes |-> <<>>])
         /\ vecs' = <<>> /\ loads' = <<>> /\ mask' = UNION {Blocks(c) : c \in sel[files[cur + 1][1]].c}
         /\ UNCHANGED <<sel, files, out>>
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SetSeq(S \ {x})
RECURSIVE AddVecs(_, _, _, _)
(* one vector for each node a set acts on *)
AddVecs(st, lc, s, ns) ==
  IF ns = <<>> THEN st
  ELSE LET n == Head(ns) a == Amount(s, n) IN
       AddVecs(IF a = 0 THEN st ELSE [v |-> Append(st.v, a), l |-> [st.l EXCEPT ![n] = Append(@, <<lc, Len(st.v) + 1>>)]], lc, s, Tail(ns))
RECURSIVE AddSets(_, _, _)
AddSets(st, a, ss) ==
  IF ss = <<>> THEN st
  ELSE LET lc == IF Bug = "restart" THEN Cardinality({k \in DOMAIN st.o : st.o[k][1] = a}) + 1 ELSE Len(st.o) + 1
           w == AddVecs([v |-> st.v, l |-> st.l], lc, Head(ss), SetSeq(Nodes)) IN
       AddSets([v |-> w.v, l |-> w.l, o |-> Append(st.o, <<a, Head(ss), lc>>)], a, Tail(ss))
Fill == /\ pc = "fill" /\ todo <= Len(files[cur]) /\ todo' = todo + 1
        /\ LET a == files[cur][todo] st == AddSets([v |-> vecs, l |-> lists, o |-> loads], a, SetSeq(sel[a].l)) IN
           vecs' = st.v /\ lists' = st.l /\ loads' = st.o
        /\ UNCHANGED <<sel, files, cur, mask, out, pc>>
Write == /\ pc = "fill" /\ todo > Len(files[cur]) /\ pc' = "next"
         /\ out' = Append(out, [mask |-> mask, lists |-> lists, vecs |-> vecs, loads |-> loads, an |-> Range(files[cur])])
         /\ UNCHANGED <<sel, todo, files, cur, lists, vecs, loads, mask>>
Done == pc = "next" /\ cur = Len(files) /\ pc' = "done" /\ UNCHANGED <<sel, todo, files, cur, lists, vecs, loads, mask, out>>
Next == Group \/ Grouped \/ Begin \/ Fill \/ Write \/ Done
Spec == Init /\ [][Next]_vars
(* reading *)
CasesOf(f, a) == {x[3] : x \in {y \in Range(f.loads) : y[1] = a}}
ReadForce(f, a, n) == Sum({<<i, IF f.lists[n][i][1] \in CasesOf(f, a) /\ f.lists[n][i][2] \in DOMAIN f.vecs THEN f.vecs[f.lists[n][i][2]] ELSE 0>> : i \in DOMAIN f.lists[n]})
Faithful == pc = "done" => \A a \in 1..NAn :
   /\ Cardinality({i \in DOMAIN out : a \in out[i].an}) = 1
   /\ \A i \in {j \in DOMAIN out : a \in out[j].an} : out[i].mask = MaskOf(a) /\ \A n \in Nodes : ReadForce(out[i], a, n) = ForceOf(a, n)
(* no vector or load case of another file is referred to *)
Closed == \A i \in DOMAIN out : \A n \in Nodes : \A k \in DOMAIN out[i].lists[n] :
   out[i].lists[n][k][2] \in DOMAIN out[i].vecs /\ out[i].lists[n][k][1] \in {x[3] : x \in Range(out[i].loads)}
(* files differ in their constraints *)
Merged == pc = "done" => \A i, j \in DOMAIN out : i # j => \E a \in out[i].an, b \in out[j].an : sel[a].c # sel[b].c
=============================================================================
