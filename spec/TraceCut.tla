------------------------------ MODULE TraceCut -------------------------------
(***************************************************************************)
(* Judges searches which a timeout interrupted (C11): everything that was  *)
(* completed before the end is in the result, or dominated by it, and      *)
(* after the timeout there is only a bounded amount of work.               *)
(*                                                                         *)
(* data.json: insts, limit (the number of moves, or calls of the accept    *)
(*   function, that a thread may still make), late (microseconds), and     *)
(*   runs, a list of records with                                          *)
(*   ins, out, costs (list of [time, space])                               *)
(*   leaves   the schedules whose exploration was logged as finished,      *)
(*            except for those which were the last move of a thread        *)
(*   told     the numbers which the accept function was told as the least  *)
(*            space found so far                                           *)
(*   after    how many moves, or calls, a thread made after the timeout    *)
(*   took     how long the search took after the timeout (0: less)         *)
(*   early    by how many microseconds a search that takes forever came    *)
(*            back before the timeout                                      *)
(***************************************************************************)
EXTENDS Mbqc, Json

Data == JsonDeserialize("data.json")
Insts == [k_ \in DOMAIN Data.insts |-> Derive(Data.insts[k_])]
Runs == Data.runs

VARIABLES c, p, kept
vars == <<c, p, kept>>
R == Runs[c]
I == Insts[R.ins]

Init == c \in DOMAIN Runs /\ p = 0 /\ kept = "yes"

Covered(cost) == \E j \in DOMAIN R.costs : Dominates(R.costs[j], cost)

Steps2Sets(path) == [k \in DOMAIN path |-> Range(path[k])]

Leaf == /\ R.out = "ok" /\ kept = "yes" /\ p < Len(R.leaves)
        /\ LET P == TLCEval(Steps2Sets(R.leaves[p + 1])) IN
           kept' = IF ~ ValidSchedule(I, P) THEN "not a schedule"
                   ELSE IF Covered(<<Len(P), SpaceOf(I, P)>>) THEN "yes" ELSE "lost"
        /\ p' = p + 1
        /\ UNCHANGED c
Spec == Init /\ [][Leaf]_vars

Ends == R.out = "ok"
KeepsFound == kept # "lost"
(* (a sanity condition on the log; C01 is about what is returned) *)
LogIsSane == kept # "not a schedule"
KeepsTold == \A j \in DOMAIN R.told : \E i \in DOMAIN R.costs : R.costs[i][2] <= R.told[j]
BoundedWork == R.after <= Data.limit
NotEarly == R.early = 0
InTime == R.took <= Data.late
ASSUME Sane == \A j \in DOMAIN Data.insts : WellFormed(Data.insts[j])
=============================================================================
