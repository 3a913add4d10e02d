------------------------------- MODULE Faults -------------------------------
(* What a card that cannot be understood does to a translation.  A card is   *)
(* faulty when its keyword is unknown, when a value has the wrong type, when  *)
(* a mandatory field is blank, or when it goes on after its last field.      *)
(* Best effort (and mesh at least): the card is passed over, everything else *)
(* is translated as if it were not there, the code is 0.  Strict: the code is *)
(* that of a parse failure and nothing is written.                           *)
(* A faulty card is an event [k |-> "FAULT", kind, kw, f] where f lists the   *)
(* fields as written; a card with fields in excess keeps its own meaning.     *)
EXTENDS Deck
Modes == {"best", "mesh", "strict", "default"}
OK == 0
PARSING == 6
IsFault(c) == c.k = "FAULT" \/ ("excess" \in DOMAIN c /\ c.excess = 1)
Strict(m) == m = "strict"
ReadF(d, c) == IF c.k = "FAULT" THEN d ELSE Read(d, c)
Code(m, faulty) == IF Strict(m) /\ faulty THEN PARSING ELSE OK

(* Fields of well formed cards: <<type, text>>; types I R D mandatory integer, real, list of components; i r d the same    *)
(* where a blank has a meaning; x a field that is never spoilt.  @sid, @spc, @mpc: sets in use; @g @h: grids; @new: unused. *)
T(k, f) == [kw |-> k, f |-> f]
Templates == <<
  T("GRID", <<<<"I", "@new">>, <<"i", "">>, <<"r", "901.">>, <<"r", "2.5">>, <<"r", "-3.">>, <<"i", "">>, <<"x", "13">>>>),
  T("CROD", <<<<"I", "@new">>, <<"i", "2">>, <<"I", "@g">>, <<"I", "@h">>>>),
  T("CBAR", <<<<"I", "@new">>, <<"i", "1">>, <<"I", "@g">>, <<"I", "@h">>, <<"r", "0.1">>, <<"r", "0.2">>, <<"r", "1.">>>>),
  T("CTRIA3", <<<<"I", "@new">>, <<"i", "3">>, <<"I", "@a">>, <<"I", "@b">>, <<"I", "@c">>>>),
  T("CQUAD4", <<<<"I", "@new">>, <<"i", "3">>, <<"I", "@a">>, <<"I", "@b">>, <<"I", "@c">>, <<"I", "@g">>>>),
  T("CHEXA", <<<<"I", "@new">>, <<"i", "4">>, <<"I", "1">>, <<"I", "2">>, <<"I", "3">>, <<"I", "4">>, <<"I", "5">>, <<"I", "6">>, <<"I", "7">>, <<"I", "8">>>>),
  T("PROD", <<<<"I", "@new">>, <<"I", "1">>, <<"R", "2.">>, <<"r", "3.">>>>),
  T("PBAR", <<<<"I", "@new">>, <<"I", "1">>, <<"r", "2.">>, <<"r", "3.">>, <<"r", "4.">>, <<"r", "5.">>>>),
  T("PSHELL", <<<<"I", "@new">>, <<"I", "1">>, <<"r", "0.5">>>>),
  T("PSOLID", <<<<"I", "@new">>, <<"I", "1">>>>),
  T("MAT1", <<<<"I", "@new">>, <<"r", "1.+5">>, <<"r", "">>, <<"r", "0.25">>, <<"r", "7.">>>>),
  T("FORCE", <<<<"I", "@sid">>, <<"I", "@g">>, <<"i", "0">>, <<"r", "5.">>, <<"r", "1.">>, <<"r", "2.">>, <<"r", "3.">>>>),
  T("MOMENT", <<<<"I", "@sid">>, <<"I", "@g">>, <<"i", "0">>, <<"r", "5.">>, <<"r", "1.">>, <<"r", "2.">>, <<"r", "3.">>>>),
  T("FORCE1", <<<<"I", "@sid">>, <<"I", "@g">>, <<"R", "5.">>, <<"I", "@g">>, <<"I", "@h">>>>),
  T("GRAV", <<<<"I", "@sid">>, <<"i", "">>, <<"r", "9.">>, <<"r", "1.">>, <<"r", "2.">>, <<"r", "3.">>>>),
  T("RFORCE", <<<<"I", "@sid">>, <<"I", "@g">>, <<"i", "0">>, <<"R", "2.">>, <<"r", "1.">>, <<"r", "2.">>, <<"r", "3.">>>>),
  T("PLOAD2", <<<<"I", "@sid">>, <<"R", "9.">>, <<"I", "@el">>>>),
  T("PLOAD4", <<<<"I", "@sid">>, <<"I", "@el">>, <<"R", "9.">>>>),
  T("SPC", <<<<"I", "@spc">>, <<"I", "@g">>, <<"d", "246">>, <<"r", "7.">>>>),
  T("SPC1", <<<<"I", "@spc">>, <<"D", "246">>, <<"I", "@g">>, <<"x", "@h">>>>),
  T("SPC", <<<<"x", "@spc">>, <<"x", "@g">>, <<"x", "246">>, <<"x", "">>, <<"I", "@h">>, <<"d", "3">>, <<"r", "">>>>),
  T("SPCD", <<<<"x", "@sid">>, <<"x", "@g">>, <<"x", "246">>, <<"x", "7.">>, <<"I", "@h">>, <<"D", "13">>, <<"R", "2.">>>>),
  T("LOAD", <<<<"I", "@load">>, <<"r", "2.">>, <<"x", "3.">>, <<"x", "@sid">>, <<"x", "-2.">>, <<"I", "@sid">>>>),
  T("SPCD", <<<<"I", "@sid">>, <<"I", "@g">>, <<"D", "246">>, <<"R", "7.">>>>),
  T("MPC", <<<<"I", "@mpc">>, <<"I", "@g">>, <<"D", "4">>, <<"R", "2.">>, <<"x", "@h">>, <<"D", "5">>, <<"R", "-3.">>>>),
  T("RBE2", <<<<"I", "@new">>, <<"I", "@g">>, <<"D", "123">>, <<"I", "@h">>>>),
  T("RBE3", <<<<"I", "@new">>, <<"x", "">>, <<"I", "@g">>, <<"D", "123">>, <<"R", "1.">>, <<"D", "123">>, <<"I", "@h">>>>),
  T("CELAS2", <<<<"I", "@new">>, <<"R", "1000.">>, <<"I", "@g">>, <<"D", "1">>, <<"i", "@h">>, <<"d", "2">>>>),
  T("CONM2", <<<<"I", "@new">>, <<"I", "@g">>, <<"i", "">>, <<"R", "4.">>, <<"r", "1.">>, <<"r", "2.">>, <<"r", "3.">>>>),
  T("CORD2R", <<<<"I", "@new">>, <<"i", "0">>, <<"r", "0.">>, <<"r", "0.">>, <<"r", "0.">>, <<"r", "0.">>, <<"r", "0.">>, <<"r", "1.">>, <<"r", "1.">>, <<"r", "0.">>, <<"r", "0.">>>>)>>
(* cards whose structure is broken *)
Broken == <<
  T("SPC1", <<<<"x", "@spc">>, <<"x", "123">>, <<"x", "THRU">>, <<"x", "@h">>>>),
  T("SPC1", <<<<"x", "@spc">>, <<"x", "246">>, <<"x", "@g">>, <<"x", "THRU">>, <<"x", "@h">>, <<"x", "BY">>, <<"x", "0">>>>),
  T("SPC1", <<<<"x", "@spc">>, <<"x", "246">>, <<"x", "@g">>, <<"x", "THRU">>, <<"x", "@h">>, <<"x", "BY">>, <<"x", "-1">>>>),
  T("SPC1", <<<<"x", "@spc">>, <<"x", "246">>, <<"x", "@g">>, <<"x", "THRU">>, <<"x", "">>>>),
  T("SPC1", <<<<"x", "@spc">>>>),
  T("SPC1", <<<<"x", "@spc">>, <<"x", "127">>, <<"x", "@g">>>>),
  T("RBE2", <<<<"x", "@new">>, <<"x", "@g">>, <<"x", "123">>>>),
  T("RBE3", <<<<"x", "@new">>, <<"x", "">>, <<"x", "@g">>, <<"x", "123">>, <<"x", "1.">>, <<"x", "123">>>>),
  T("MPC", <<<<"x", "@mpc">>>>),
  T("FORCE", <<<<"x", "@sid">>>>),
  T("GRID", <<<<"x", "">>>>),
  T("CBAR", <<<<"x", "@new">>, <<"x", "1">>, <<"x", "@g">>>>),
  T("CHEXA", <<<<"x", "@new">>, <<"x", "4">>, <<"x", "@g">>, <<"x", "@h">>>>),
  T("LOAD", <<<<"x", "@sid">>, <<"x", "1.">>, <<"x", "A1B">>>>)>>
Numeric(t) == t \in {"I", "R", "D", "i", "r", "d"}
Integral(t) == t \in {"I", "D", "i", "d"}
(* ways to spoil field j of template t *)
Spoils(t, j) == (IF Numeric(t.f[j][1]) THEN {"text"} ELSE {}) \cup (IF Integral(t.f[j][1]) THEN {"real"} ELSE {}) \cup (IF t.f[j][1] \in {"I", "R", "D"} THEN {"blank"} ELSE {})
SpoiltText(how) == CASE how = "text" -> "A1B" [] how = "real" -> "1.5" [] how = "blank" -> ""
Spoilt(t, j, how) == [t EXCEPT !.f[j] = <<"x", SpoiltText(how)>>]
=============================================================================
