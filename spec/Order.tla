-------------------------------- MODULE Order --------------------------------
(* Bulk data cards come in any order: the meaning of a deck is a function of   *)
(* the bag of its cards.  Cards refer to grids, elements, properties, systems  *)
(* and sets that are defined before or after them.                             *)
(* A translation of the cards in some order is described by the set of what it *)
(* says (its items, in terms of identifiers and places, not of numbering).     *)
EXTENDS Integers, Sequences, FiniteSets
IsPermutation(p, n) == Len(p) = n /\ {p[i] : i \in DOMAIN p} = 1..n
SetOf(s) == {s[i] : i \in DOMAIN s}
(* what one translation says and the first one does not, and the other way round *)
Gained(ref, got) == got \ ref
Lost(ref, got) == ref \ got
Same(ref, got) == Gained(ref, got) = {} /\ Lost(ref, got) = {}

(* Abstract cards and their meaning, for the exhaustive model:                   *)
(* [k |-> "def", id, x] a grid; [k |-> "use", of, what] something said of a grid; *)
(* [k |-> "dflt", v] a default for what grids leave open; [k |-> "put", set, v]   *)
(* a member of a set; [k |-> "add", set, of] a set that includes another one;     *)
(* [k |-> "pick", set] the set an analysis uses.                                  *)
Defs(B) == {c \in B : c.k = "def"}
Dflt(B) == {c.v : c \in {x \in B : x.k = "dflt"}}
ValueOf(B, c) == IF c.x # 0 THEN c.x ELSE IF Dflt(B) = {} THEN 0 ELSE CHOOSE v \in Dflt(B) : TRUE
RECURSIVE Closure(_, _)
Closure(B, S) == LET T == S \cup {c.of : c \in {x \in B : x.k = "add" /\ x.set \in S}} IN IF T = S THEN S ELSE Closure(B, T)
Meaning(B) ==
  {<<"grid", c.id, ValueOf(B, c)>> : c \in Defs(B)}
  \cup {<<"said", u.of, u.what>> : u \in {x \in B : x.k = "use" /\ \E c \in Defs(B) : c.id = x.of}}
  \cup UNION {{<<"set", v>> : v \in {p.v : p \in {x \in B : x.k = "put" /\ x.set \in Closure(B, {k.set})}}} : k \in {x \in B : x.k = "pick"}}
=============================================================================
