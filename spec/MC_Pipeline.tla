----------------------------- MODULE MC_Pipeline -----------------------------
(* The translation passes as operations on shared objects (load sets referring *)
(* to load objects, analyses referring to sets), checked exhaustively on small *)
(* decks against the declarative meaning of Deck.  SafeScale = FALSE scales a   *)
(* shared load in place, SafeSpc = FALSE lets one analysis' redundancy removal  *)
(* edit the set another analysis uses: both must break the invariant.          *)
EXTENDS Deck
CONSTANTS MaxCards, SafeScale, SafeSpc
VARIABLES d, ph, obj, ls, an, todo
vars == <<d, ph, obj, ls, an, todo>>

C(k) == [ev |-> "card", k |-> k]
Cards ==
  {C("SPC") @@ [sid |-> s, items |-> <<<<g, <<1>>, v>>>>] : s \in {1, 2}, g \in {1, 2}, v \in {0, 1}}
  \cup {C("SPCADD") @@ [sid |-> 3, sids |-> q] : q \in {<<1, 2>>, <<2, 1>>, <<1>>}}
  \cup {C("FORCE") @@ [sid |-> s, g |-> 1, f |-> f, v |-> <<1, 0, 0>>] : s \in {11, 12}, f \in {1, 2}}
  \cup {C("SPCD") @@ [sid |-> s, items |-> <<<<1, <<1>>, 1>>>>] : s \in {11, 12}}
  \cup {C("LOAD") @@ [sid |-> 13, s2 |-> 2, terms |-> q] : q \in {<<<<2, 11>>>>, <<<<4, 11>>>>, <<<<2, 11>>, <<-2, 12>>>>}}
  \cup {C("LOAD") @@ [sid |-> 14, s2 |-> 4, terms |-> q] : q \in {<<<<1, 11>>>>, <<<<2, 11>>, <<2, 12>>>>}}
Subs == {C("SUB") @@ [id |-> i, spc |-> s, mpc |-> 0, load |-> l] : i \in {1, 2}, s \in {0, 1, 3}, l \in {0, 11, 13, 14}}

Init == d = EmptyDeck /\ ph = "read" /\ obj = <<>> /\ ls = <<>> /\ an = <<>> /\ todo = {}
ReadSub == /\ ph = "read" /\ d.n < 2
           /\ \E c \in Subs : (\A i \in DOMAIN d.subs : d.subs[i].id < c.id) /\ d' = Read(d, c)
           /\ UNCHANGED <<ph, obj, ls, an, todo>>
OneLoad(c) == c.k # "LOAD" \/ ~\E x \in d.comb : x[1] = c.sid
OneImp(c) == c.k # "SPCD" \/ d.imp = {}
ReadCard == /\ ph = "read" /\ d.n < MaxCards + Len(d.subs) /\ \E c \in Cards : OneLoad(c) /\ OneImp(c) /\ d' = Read(d, c)
            /\ UNCHANGED <<ph, obj, ls, an, todo>>
(* build: one object per nodal load or imposed displacement *)
LoadObj(S, sid) == {<<"f", x[2], x[3], <<x[5], 0, 0>>>> : x \in {y \in S.nodal : y[1] = sid}} \cup {<<"i", x[2], x[3], <<x[1], 0, 0>>>> : x \in {y \in S.imp : y[1] = sid}}
LSids == {11, 12, 13, 14}
Build == /\ ph = "read" /\ ph' = "combine"
         /\ ls' = [s \in LSids |-> LoadObj(d, s)]
         /\ obj' = [o \in UNION {LoadObj(d, s) : s \in LSids} |->
                      IF o[1] = "f" THEN 4 * (CHOOSE x \in d.nodal : x[5] = o[4][1] /\ x[3] = o[3])[4]
                                    ELSE 4 * (CHOOSE x \in d.imp : x[1] = o[4][1] /\ x[2] = o[2] /\ x[3] = o[3])[4]]
         /\ an' = [i \in 1..NAn(d) |-> [spc |-> {<<s[2], s[3], s[4], s[1]>> : s \in {t \in d.spc : t[1] \in SpcSids(d, Sel(d, i).spc)}},
                                       load |-> Sel(d, i).load, fail |-> FALSE]]
         /\ todo' = {<<c[1], c[3]>> : c \in d.comb}
         /\ UNCHANGED d
(* replaceCombinedLoadSets, one term of one combination at a time, in any order *)
Combine == /\ ph = "combine" /\ \E t \in todo :
             LET c == CHOOSE x \in d.comb : x[1] = t[1] /\ x[3] = t[2]
                 f == c[2] * c[4]                       \* quarters
                 src == LoadObj(d, c[5])
             IN /\ todo' = todo \ {t}
                /\ IF f = 4 THEN ls' = [ls EXCEPT ![t[1]] = @ \cup src] /\ UNCHANGED obj
                   ELSE IF SafeScale
                   THEN LET new == {<<o[1], o[2], o[3], <<o[4][1], t[1], t[2]>>>> : o \in src}
                        IN /\ ls' = [ls EXCEPT ![t[1]] = @ \cup new]
                           /\ obj' = obj @@ [n \in new |-> (obj[<<n[1], n[2], n[3], <<n[4][1], 0, 0>>>>] * f) \div 4]
                   ELSE /\ ls' = [ls EXCEPT ![t[1]] = @ \cup src]
                        /\ obj' = [o \in DOMAIN obj |-> IF o \in src THEN (obj[o] * f) \div 4 ELSE obj[o]]
           /\ UNCHANGED <<d, ph, an>>
Combined == ph = "combine" /\ todo = {} /\ ph' = "spc" /\ todo' = DOMAIN an /\ UNCHANGED <<d, obj, ls, an>>
(* removeRedundantSpcs and removeConstrainedImposed, one analysis at a time, in any order *)
Redundant == /\ ph = "spc" /\ \E i \in todo :
               LET K == {<<x[1], x[2]>> : x \in an[i].spc}
                   V(k) == {x[3] : x \in {y \in an[i].spc : <<y[1], y[2]>> = k}}
                   Ld == IF an[i].load = 0 THEN {} ELSE ls[an[i].load]
                   I == {<<o[2], o[3]>> : o \in {x \in Ld : x[1] = "i"}}
                   keep == {<<k[1], k[2], v, 0>> : k \in K \ I, v \in UNION {V(j) : j \in K}} \cap {<<k[1], k[2], v, 0>> : k \in K, v \in {0, 1}}
                   good == {x \in keep : x[3] \in V(<<x[1], x[2]>>)}
                   gone == {x \in an[i].spc : <<x[1], x[2]>> \in I}
               IN /\ todo' = todo \ {i}
                  /\ an' = [j \in DOMAIN an |->
                       IF j = i THEN [an[i] EXCEPT !.spc = good, !.fail = \E k \in K : Cardinality(V(k)) > 1]
                       ELSE IF SafeSpc THEN an[j] ELSE [an[j] EXCEPT !.spc = @ \ gone]]
             /\ UNCHANGED <<d, ph, obj, ls>>
Done == ph = "spc" /\ todo = {} /\ ph' = "done" /\ UNCHANGED <<d, obj, ls, an, todo>>
Next == ReadSub \/ ReadCard \/ Build \/ Combine \/ Combined \/ Redundant \/ Done
Spec == Init /\ [][Next]_vars

OutForce(i) == LET L == IF an[i].load = 0 THEN {} ELSE ls[an[i].load]
                   F == {o \in L : o[1] = "f"}
               IN Totals({<<<<o[2], o[3]>>, o, obj[o]>> : o \in F})
OutImp(i) == LET L == IF an[i].load = 0 THEN {} ELSE ls[an[i].load] IN {<<<<o[2], o[3]>>, obj[o]>> : o \in {x \in L : x[1] = "i"}}
OutSpc(i) == {<<x[1], x[2], 4 * x[3]>> : x \in an[i].spc} \cup {<<m[1][1], m[1][2], m[2]>> : m \in OutImp(i)}
(* what comes out is what the deck denotes *)
Preserved == ph = "done" =>
  \A i \in 1..NAn(d) : /\ OutForce(i) = ExpNodal(d, i)
                       /\ OutImp(i) = ImpOf(d, i)
                       /\ OutSpc(i) = ExpSpc(d, i) \/ Conflict(d, i)
                       /\ an[i].fail <=> Conflict(d, i)
(* bulk cards commute: the meaning of a deck does not depend on their order *)
Free(x) == [nodal |-> {<<y[1], y[2], y[3], y[4]>> : y \in x.nodal}, spc |-> x.spc, add |-> x.add, imp |-> x.imp, comb |-> x.comb]
Commute == (ph = "read" /\ d.n < MaxCards) => \A a, b \in Cards : Free(Read(Read(d, a), b)) = Free(Read(Read(d, b), a))
=============================================================================
