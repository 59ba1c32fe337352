--------------------------- MODULE TraceFrontier ----------------------------
(***************************************************************************)
(* Decides whether the list of costs that a search returned is exactly the *)
(* Pareto frontier (C04, C05, C12, and C11 for searches that were not      *)
(* cut).  TLC explores all schedules of the instance, as long as they are  *)
(* not yet dominated by a claimed cost, and all of these schedules have to *)
(* end before they are complete.  (That every claimed cost is the cost of  *)
(* a valid schedule, and that the list is an antichain, is decided by      *)
(* TracePaths.tla on the same runs; together this means that the list is   *)
(* the frontier.)                                                          *)
(*                                                                         *)
(* With an accept rule, only the schedules made of accepted steps count.   *)
(* The rule is a function of the quantities that do not depend on the      *)
(* history of the search; exempt is the number of first steps that are not *)
(* subject to it (1 in the multi-threaded search, unless the step belongs  *)
(* to the remainder, which is handled in "rest").                          *)
(*                                                                         *)
(* data.json: insts, and claims, a list of records with                    *)
(*   ins, costs (list of [time, space]), out                               *)
(*   rule    [kind, a, b, c, m, r]                                         *)
(*   exempt  0 or 1                                                        *)
(***************************************************************************)
EXTENDS Rules, Json

Data == JsonDeserialize("data.json")
Insts == [k_ \in DOMAIN Data.insts |-> Derive(Data.insts[k_])]
Claims == Data.claims

VARIABLES c, M, t, mem
vars == <<c, M, t, mem>>

Claim == Claims[c]
I == Insts[Claim.ins]

(* The least claimed space for at most so many steps. *)
Covered(time, space) ==
  \E j \in DOMAIN Claim.costs : Dominates(Claim.costs[j], <<time, space>>)

Init == /\ c \in DOMAIN Claims
        /\ M = {}
        /\ t = 0
        /\ mem = 0

Take(S) ==
  LET newM == M \cup S
      newMem == Max2(mem, Peak(I, M, S))
  IN  /\ ~ Covered(t + 1, newMem)
      /\ \/ t < Claim.exempt
         \/ Accepted(Claim.rule, mem, Current(I, M), Current(I, newM))
      /\ M' = newM
      /\ mem' = newMem
      /\ t' = t + 1
      /\ UNCHANGED c

Next == Claim.out = "ok" /\ \E S \in Steps(I, M) : Take(S)
Spec == Init /\ [][Next]_vars

Ends == Claim.out = "ok"
NothingMissing == ~ (Complete(I, M) /\ t > 0)
ASSUME Sane == \A j \in DOMAIN Data.insts : WellFormed(Data.insts[j])
=============================================================================
