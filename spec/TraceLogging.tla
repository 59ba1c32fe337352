---------------------------- MODULE TraceLogging -----------------------------
(***************************************************************************)
(* Runs of the real code with and without somebody who listens to what     *)
(* they log (C24, cf. Logging).                                            *)
(*                                                                         *)
(* data.json: groups, a list of records (one for each run) with            *)
(*   kind    "exact": the paths are determined, "costs": time and space of *)
(*           the paths are determined, "end": only that it returns         *)
(*   silent  out ("ok", "failed": its accept function has failed, "error": *)
(*           the exit status of the tool, "bad": hangs, aborts, panics     *)
(*           otherwise) and paths of the run that nobody listens to        *)
(*   loud    the same, of the runs with listeners                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Data == JsonDeserialize("data.json")
VARIABLE c
G == Data.groups[c]
Init == c \in DOMAIN Data.groups
Spec == Init /\ [][FALSE]_c

Costs(ps) == [j \in DOMAIN ps |-> <<ps[j].time, ps[j].space>>]
Loud == {G.loud[j] : j \in DOMAIN G.loud}
Ends == G.silent.out # "bad" /\ \A r \in Loud : r.out # "bad"
SameEnd == \A r \in Loud : r.out = G.silent.out
SamePaths == \A r \in Loud :
  /\ G.kind = "exact" => r.paths = G.silent.paths
  /\ G.kind = "costs" => Costs(r.paths) = Costs(G.silent.paths)
=============================================================================
