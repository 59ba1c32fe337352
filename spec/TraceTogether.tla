---------------------------- MODULE TraceTogether ----------------------------
(***************************************************************************)
(* Runs of the real code, one after the other and at the same time in one  *)
(* process, compared with the same runs on their own (C23, cf. Together).  *)
(*                                                                         *)
(* data.json: groups, a list of records (one for each run) with            *)
(*   kind      "exact": the paths are determined, "costs": time and space  *)
(*             of the paths are determined, "cut": neither, "fails": not   *)
(*             even whether it fails                                       *)
(*   alone     out and paths of the run in a process of its own            *)
(*   together  the same, from its repetitions among other runs             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Data == JsonDeserialize("data.json")
VARIABLE c
G == Data.groups[c]
Init == c \in DOMAIN Data.groups
Spec == Init /\ [][FALSE]_c

Costs(ps) == [j \in DOMAIN ps |-> <<ps[j].time, ps[j].space>>]
Ends == /\ G.alone.out # "bad"
        /\ \A k \in DOMAIN G.together : G.together[k].out # "bad"
SameEnd == G.kind # "fails" => \A k \in DOMAIN G.together : G.together[k].out = G.alone.out
AsAlone == \A k \in DOMAIN G.together :
  /\ G.kind = "exact" => G.together[k].paths = G.alone.paths
  /\ G.kind = "costs" => Costs(G.together[k].paths) = Costs(G.alone.paths)
=============================================================================
