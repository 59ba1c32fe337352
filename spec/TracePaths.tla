----------------------------- MODULE TracePaths -----------------------------
(***************************************************************************)
(* Replays the paths which the real code returned: the steps of a path are *)
(* the actions, and the measured set, and the memory needed so far, evolve *)
(* as Mbqc.tla says.  Decides C01 (validity), C02 (costs), C03             *)
(* (time-optimal mode) and C06 (sorted antichains), and, for searches with *)
(* an accept rule, that all steps were accepted (C12).                     *)
(*                                                                         *)
(* data.json: insts, a list of instances, and runs, a list of records with *)
(*   ins    index of the instance                                          *)
(*   mode   "timeopt" or "search"                                          *)
(*   out    "ok" or "bad" (a panic or a hang)                              *)
(*   paths  list of [time, space, steps]                                   *)
(*   rule, exempt  the accept rule (Rules.tla), and the number of the      *)
(*          first steps which are not subject to it                        *)
(***************************************************************************)
EXTENDS Rules, Json

Data == JsonDeserialize("data.json")
Insts == [k_ \in DOMAIN Data.insts |-> Derive(Data.insts[k_])]
Runs == Data.runs

VARIABLES
  r,       \* the run
  p,       \* the path of the run which is replayed; 0: none, only the list is judged
  k,       \* the number of steps which have been replayed
  M,       \* what has been measured
  mem,     \* memory needed so far
  valid,   \* whether all steps so far were possible
  allowed  \* whether all steps so far were accepted by the rule

vars == <<r, p, k, M, mem, valid, allowed>>

Run == Runs[r]
Path == Run.paths[p]
I == Insts[Run.ins]

Init == /\ r \in DOMAIN Runs
        /\ p \in 0 .. Len(Runs[r].paths)
        /\ k = 0
        /\ M = {}
        /\ mem = 0
        /\ valid = TRUE
        /\ allowed = TRUE

Measure ==
  /\ p # 0
  /\ valid
  /\ k < Len(Path.steps)
  /\ LET seq == Path.steps[k+1]
         S == Range(seq)
         ok == /\ S # {}
               /\ Cardinality(S) = Len(seq)
               /\ S \subseteq Measurable(I, M)
     IN  IF ok THEN /\ M' = M \cup S
                    /\ mem' = Max2(mem, Peak(I, M, S))
                    /\ valid' = TRUE
                    /\ allowed' = (allowed /\
                         (k < Run.exempt \/ Accepted(Run.rule, mem, Current(I, M),
                                                    Current(I, M \cup S))))
               ELSE UNCHANGED <<M, mem, allowed>> /\ valid' = FALSE
  /\ k' = k + 1
  /\ UNCHANGED <<r, p>>

Next == Measure
Spec == Init /\ [][Next]_vars

AtEnd == p # 0 /\ k = Len(Path.steps)

(* The run has to come to an end, normally. *)
Ends == Run.out = "ok"

(* C01 *)
Executable == valid
AllMeasured == AtEnd /\ valid => M = I.ord

(* C02 *)
TrueTime == AtEnd => Path.time = Len(Path.steps)
TrueSpace == AtEnd /\ valid => Path.space = mem

(* C12 *)
OnlyAccepted == allowed

(* C03 *)
OnePath == Run.mode = "timeopt" => Len(Run.paths) = 1
EarlyAsPossible ==
  Run.mode = "timeopt" /\ p # 0 /\ valid /\ k < Len(Path.steps)
    => Range(Path.steps[k+1]) = Measurable(I, M)
LongestChain ==
  Run.mode = "timeopt" /\ AtEnd => Path.time = StepsNeeded(I, {})

(* C06 *)
Antichain ==
  p = 0 => \A j \in 1 .. Len(Run.paths) - 1 :
             /\ Run.paths[j].time < Run.paths[j+1].time
             /\ Run.paths[j].space > Run.paths[j+1].space

(* Sanity of the inputs: the instances are in the domain of the properties. *)
ASSUME Sane == \A j \in DOMAIN Data.insts : WellFormed(Data.insts[j])
=============================================================================
