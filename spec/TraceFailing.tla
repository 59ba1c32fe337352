---------------------------- MODULE TraceFailing -----------------------------
(***************************************************************************)
(* Runs of the real code with accept functions that fail in some calls,    *)
(* call by call (C22; cf. Failing.tla).                                    *)
(*                                                                         *)
(* data.json: runs, a list of records with                                 *)
(*   n              the requested number of threads                        *)
(*   out            "paths", "failed" (the failure was passed on),         *)
(*                  "panicked" (with something else) or "bad" (crash, hang)*)
(*   events         [t, f] for the calls in order: on the thread t; f = 1  *)
(*                  if it failed                                           *)
(*   late           calls after the run had ended                          *)
(*   before, after  costs found by runs without accept function or with    *)
(*                  one that does not fail, before and after; <<-1, -1>>   *)
(*                  if such a run panicked                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Data == JsonDeserialize("data.json")
VARIABLES c, p, threads, failed, err
vars == <<c, p, threads, failed, err>>
R == Data.runs[c]
Ev == R.events[p + 1]

Init == c \in DOMAIN Data.runs /\ p = 0 /\ threads = {} /\ failed = {} /\ err = ""
Active == R.out # "bad" /\ err = "" /\ p < Len(R.events)

(* Call and Fail of Failing.tla: a thread that has seen a failure calls no more *)
Call == /\ Active /\ Ev.f = 0
        /\ threads' = threads \cup {Ev.t} /\ UNCHANGED failed
        /\ err' = IF Ev.t \in failed THEN "called on after a failure" ELSE ""
Fail == /\ Active /\ Ev.f = 1
        /\ threads' = threads \cup {Ev.t} /\ failed' = failed \cup {Ev.t}
        /\ err' = IF Ev.t \in failed THEN "failed again" ELSE ""
Next == (Call \/ Fail) /\ p' = p + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Ends == R.out # "bad"
OnlyOnce == err = ""
FailsAsAWhole == p = Len(R.events) => ((failed = {}) <=> (R.out = "paths"))
PassesOn == R.out # "panicked"
NothingAfterwards == R.out # "bad" => R.late = 0
Unaffected == R.out # "bad" => R.before = R.after /\ <<-1, -1>> \notin {R.after[j] : j \in DOMAIN R.after}
=============================================================================
