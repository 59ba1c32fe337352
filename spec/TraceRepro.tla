----------------------------- MODULE TraceRepro ------------------------------
(***************************************************************************)
(* Groups of runs of the real code which have to give identical results,   *)
(* or may not all give the same (C19), or in which the first and the       *)
(* second, the third and the fourth, etc. may not all give the same.       *)
(*                                                                         *)
(* data.json: groups, a list of records with same, pairs, and results, a   *)
(*   list of records out and paths                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Data == JsonDeserialize("data.json")
VARIABLE c
G == Data.groups[c]
Init == c \in DOMAIN Data.groups
Spec == Init /\ [][FALSE]_c

Ends == \A k \in DOMAIN G.results : G.results[k].out = "ok"
Identical == G.same => \A k \in DOMAIN G.results : G.results[k] = G.results[1]
PairsVary == G.pairs =>
  \E k \in 1 .. Len(G.results) \div 2 : G.results[2 * k - 1] # G.results[2 * k]
Varied == ~ G.same /\ ~ G.pairs => \E k \in DOMAIN G.results : G.results[k] # G.results[1]
=============================================================================
