------------------------------ MODULE MeshStore ------------------------------
(* The registry of a mesh: nodes and cells by identifier and by position,      *)
(* named groups, and a container of nodes, cells and groups.  Positions count  *)
(* from 0.  Operators only: MC_MeshStore explores them, T_MeshStore holds the  *)
(* code to them.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT Mut                     \* "" or the name of a wrong variant
Unset == 888888                  \* coordinate of a node that is only reserved
Empty == [nodes |-> <<>>, cells |-> <<>>, groups |-> <<>>, k |-> [n |-> {}, c |-> {}, ng |-> {}, cg |-> {}]]
LastIn(q, id) == LET S == {i \in DOMAIN q : q[i].id = id} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A j \in S : j <= i) - 1
NPos(s, id) == LastIn(s.nodes, id)
CPos(s, id) == LastIn(s.cells, id)
NIds(s) == {s.nodes[i].id : i \in DOMAIN s.nodes}
CIds(s) == {s.cells[i].id : i \in DOMAIN s.cells}
Reserve(s, id) == IF NPos(s, id) >= 0 THEN s ELSE [s EXCEPT !.nodes = Append(@, [id |-> id, p |-> <<Unset, Unset, Unset>>, d |-> {}])]
RECURSIVE ReserveAll(_, _)
ReserveAll(s, q) == IF q = <<>> THEN s ELSE ReserveAll(Reserve(s, q[1]), Tail(q))
Define(s, id, p) ==
  LET r == IF Mut = "redefine" THEN [s EXCEPT !.nodes = Append(@, [id |-> id, p |-> p, d |-> {}])] ELSE Reserve(s, id)
  IN [r EXCEPT !.nodes[NPos(r, id) + 1].p = p]
Allow(s, i, D) == [s EXCEPT !.nodes[i + 1].d = @ \cup D]
FreshNode(s, id) == Mut = "auto" \/ id \notin NIds(s)
FreshCell(s, id) == Mut = "auto" \/ id \notin CIds(s)
AddCell(s, id, t, q) == LET r == ReserveAll(s, q) IN [r EXCEPT !.cells = Append(@, [id |-> id, t |-> t, nd |-> [i \in DOMAIN q |-> NPos(r, q[i])]])]
Swap(S, a, b) == IF a \in S THEN (S \ {a}) \cup {b} ELSE S
(* a cell redefined with other nodes: a new position takes the place of the old one in every group *)
Update(s, id, t, q) ==
  LET a == CPos(s, id) r == AddCell(s, id, t, q) b == Len(r.cells) - 1
  IN [r EXCEPT !.groups = [n \in DOMAIN @ |-> IF @[n].k = 2 /\ Mut # "update" THEN [@[n] EXCEPT !.mem = Swap(@, a, b)] ELSE @[n]]]
(* groups: k = 1 nodes, 2 cells; oid = identifier in the input, 0 when none *)
Oids(s) == {s.groups[n].oid : n \in DOMAIN s.groups} \ {0}
Refused(s, n, g) == n \in DOMAIN s.groups \/ g \in Oids(s)
NewGroup(s, n, k, g) == IF Refused(s, n, g) THEN s ELSE [s EXCEPT !.groups = [x \in DOMAIN @ \cup {n} |-> IF x = n THEN [k |-> k, oid |-> g, mem |-> {}] ELSE @[x]]]
FindRefused(s, n, g) == IF n \in DOMAIN s.groups THEN s.groups[n].k # 1 ELSE Refused(s, n, g)
FindGroup(s, n, g) == IF n \in DOMAIN s.groups THEN s ELSE NewGroup(s, n, 1, g)
DropGroup(s, n) == [s EXCEPT !.groups = [x \in DOMAIN @ \ {n} |-> @[x]]]
Rename(s, a, b) == [s EXCEPT !.groups = [x \in (DOMAIN @ \ {a}) \cup {b} |-> IF x = b THEN @[a] ELSE @[x]]]
Into(s, n, S) == [s EXCEPT !.groups[n].mem = @ \cup S]
Out(s, n, i) == [s EXCEPT !.groups[n].mem = @ \ {i}]
GroupNodes(s, n, q) == LET r == ReserveAll(s, q) IN Into(r, n, {NPos(r, q[i]) : i \in DOMAIN q})
GroupCells(s, n, q) == Into(s, n, {CPos(s, q[i]) : i \in DOMAIN q})
NodesOf(s, C) == UNION {{s.cells[c + 1].nd[i] : i \in DOMAIN s.cells[c + 1].nd} : c \in C}
GNodes(s, n) == IF s.groups[n].k = 1 THEN s.groups[n].mem ELSE NodesOf(s, s.groups[n].mem)
NIdOf(s, P) == {s.nodes[i + 1].id : i \in P}
CIdOf(s, P) == {s.cells[i + 1].id : i \in P}
(* the container *)
KC(s) == s.k.c \cup UNION {s.groups[n].mem : n \in s.k.cg}
KN(s) == s.k.n \cup UNION {s.groups[n].mem : n \in s.k.ng} \cup NodesOf(s, KC(s))
KNx(s) == s.k.n \cup NodesOf(s, s.k.c)
Wf(s) ==
  /\ \A i, j \in DOMAIN s.nodes : s.nodes[i].id = s.nodes[j].id => i = j
  /\ \A id \in NIds(s) : s.nodes[NPos(s, id) + 1].id = id
  /\ \A c \in DOMAIN s.cells : \A i \in DOMAIN s.cells[c].nd : s.cells[c].nd[i] + 1 \in DOMAIN s.nodes
  /\ \A n \in DOMAIN s.groups : \A i \in s.groups[n].mem : i + 1 \in DOMAIN (IF s.groups[n].k = 1 THEN s.nodes ELSE s.cells)
  /\ \A n \in DOMAIN s.groups : s.groups[n].k = 2 => \A i \in s.groups[n].mem : CPos(s, s.cells[i + 1].id) = i
  /\ \A m, n \in DOMAIN s.groups : s.groups[m].oid = s.groups[n].oid /\ m # n => s.groups[m].oid = 0
=============================================================================
