---------------------------- MODULE GenThreaded -----------------------------
(* Behaviours of Threaded.tla for the replay in the real code (tlc -simulate): every   *)
(* finished behaviour is printed with the order of its critical sections; for a mutant,  *)
(* every behaviour with a wrong result.                                                *)
EXTENDS Threaded, Json

CONSTANT Size
GenRaws == RawsOf(Size)
GenBounds == {0, 1, 2, 3, 100}

Emit == AllDone /\ (Mutant # "none" => Out # TrueFrontier) =>
  PrintT("@@" \o ToJson([raw |-> raw, bound |-> bound, sched |-> sched,
                          out |-> Out]))
=============================================================================
