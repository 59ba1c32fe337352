----------------------------- MODULE TraceIface ------------------------------
(***************************************************************************)
(* Holds file-based runs of the real code, in all scenarios of Iface.tla,  *)
(* against their predicted outcome, and their written paths against those  *)
(* of a run in memory (C14), also for the command line tool (C15).         *)
(*                                                                         *)
(* data.json: complete, whether all scenarios have to be among the runs;   *)
(*   insts; runs, a list of records with                                   *)
(*     s      the scenario                                                 *)
(*     ins                                                                 *)
(*     exact  "steps", "costs" or "valid": how much of the result is       *)
(*            determined                                                   *)
(*     out    "ok", "error" or "bad"                                       *)
(*     loc    the output location afterwards: "same", "changed" (compared  *)
(*            with before)                                                 *)
(*     extra  the number of other files that have been changed or created  *)
(*     parsed whether there is a file that contains a list of paths        *)
(*     paths  that list (of records time, space, steps)                    *)
(*     memory the paths of the run in memory                               *)
(*     calls  calls of the accept function in the file based run, and the  *)
(*            number of other threads that made them                       *)
(*     mcalls the same for the run in memory                               *)
(*     endless  whether the search cannot be complete in any time          *)
(*     least    the timeout, took: how long it took then (milliseconds)    *)
(***************************************************************************)
EXTENDS Mbqc, Json

Data == JsonDeserialize("data.json")
Insts == [k_ \in DOMAIN Data.insts |-> Derive(Data.insts[k_])]
Runs == Data.runs

VARIABLE c
X == INSTANCE Iface WITH scn <- "", read <- {}, checked <- FALSE, content <- "", ran <- FALSE,
                         pc <- ""
R == Runs[c]
I == Insts[R.ins]

Init == c \in DOMAIN Runs
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c

Wanted == X!Outcome(R.s)
RightStatus == R.out = IF Wanted.ok THEN "ok" ELSE "error"
(* (a device without space cannot be left as it was) *)
Untouched == ~ Wanted.ok /\ R.s.out # "full" => R.loc = "same"
NothingElse == R.extra = 0

Sets(P) == [k \in DOMAIN P |-> Range(P[k])]
CostsOf(list) == [k \in DOMAIN list |-> <<list[k].time, list[k].space>>]
TruePath(x) == /\ ValidSchedule(I, Sets(x.steps))
               /\ x.time = Len(x.steps)
               /\ x.space = SpaceOf(I, Sets(x.steps))
SamePaths ==
  Wanted.ok /\ R.out = "ok" =>
     /\ R.parsed
     /\ \A k \in DOMAIN R.paths : TruePath(R.paths[k])
     /\ CASE R.exact = "steps" -> R.paths = R.memory
          [] R.exact = "costs" -> CostsOf(R.paths) = CostsOf(R.memory)
          [] OTHER -> TRUE
SameCalls == Wanted.ok /\ R.out = "ok" => R.calls = R.mcalls
NotEarly == R.endless /\ R.out = "ok" => R.took >= R.least

ASSUME Covered == Data.complete => X!Scenarios = {Runs[k].s : k \in DOMAIN Runs}
=============================================================================
