----------------------------- MODULE TraceAsked ------------------------------
(***************************************************************************)
(* Decides, for a search with an arbitrary accept function, whether the    *)
(* result is the frontier of the schedules that consist of steps it did    *)
(* not reject (C12).  The log tells what it was asked and how it answered. *)
(* TLC explores all schedules none of whose prefixes was rejected.         *)
(*                                                                         *)
(* data.json: insts, and runs, a list of records with                      *)
(*   ins                                                                   *)
(*   paths     the steps of the returned paths                             *)
(*   costs     their [time, space]                                         *)
(*   rejected  the rejected prefixes (lists of steps)                      *)
(*   accepted  the accepted ones                                           *)
(*   exempt    1 if first steps need not be accepted, 0 otherwise          *)
(***************************************************************************)
EXTENDS Mbqc, Json

Data == JsonDeserialize("data.json")
Insts == [k_ \in DOMAIN Data.insts |-> Derive(Data.insts[k_])]
Runs == Data.runs
Prefixes(list_) ==
  {[a_ \in DOMAIN list_[b_] |-> {list_[b_][a_][d_] : d_ \in DOMAIN list_[b_][a_]}] :
     b_ \in DOMAIN list_}
Rejected == [k_ \in DOMAIN Runs |-> Prefixes(Runs[k_].rejected)]
Accepted == [k_ \in DOMAIN Runs |-> Prefixes(Runs[k_].accepted)]
Returned == [k_ \in DOMAIN Runs |-> Prefixes(Runs[k_].paths)]

VARIABLES c, path, mem
vars == <<c, path, mem>>
R == Runs[c]
I == Insts[R.ins]

Covered(time, space) ==
  \E j \in DOMAIN R.costs : Dominates(R.costs[j], <<time, space>>)

Init == c \in DOMAIN Runs /\ path = <<>> /\ mem = 0

Take(S) ==
  LET M == MeasuredBy(path)
      new == Append(path, S)
      newMem == Max2(mem, Peak(I, M, S))
  IN  /\ ~ Covered(Len(new), newMem)
      /\ new \notin Rejected[c]
      /\ path' = new
      /\ mem' = newMem
      /\ UNCHANGED c
Next == \E S \in Steps(I, MeasuredBy(path)) : Take(S)
Spec == Init /\ [][Next]_vars

NothingMissing == ~ (path # <<>> /\ Complete(I, MeasuredBy(path)))
OnlyAccepted ==
  path = <<>> => \A P \in Returned[c] :
                   \A k \in R.exempt + 1 .. Len(P) : SubSeq(P, 1, k) \in Accepted[c]
ASSUME Sane == \A j \in DOMAIN Data.insts : WellFormed(Data.insts[j])
=============================================================================
