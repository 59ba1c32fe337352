------------------------------- MODULE Failing -------------------------------
(***************************************************************************)
(* Accept functions that fail (C22).  The search asks the accept function  *)
(* of the user in its tasks (Pool.tla), on the calling thread if it is     *)
(* single-threaded; each of these calls may fail.  A failure ends its      *)
(* task; it is kept, tasks which have not started yet are not searched     *)
(* anymore, and the caller is told when the other tasks have ended.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS First,    \* the number of first steps
          Calls,    \* the largest number of calls of a task
          Threads,  \* the possible numbers of threads
          Mutant    \* "none", or a mistake: "swallow", "dies", "early", "goeson", "stuck"

VARIABLES n, pc, created, queue, busy, kept, failed, did, calls
vars == <<n, pc, created, queue, busy, kept, failed, did, calls>>
(* busy: the calls that the task of a thread will still make, -1 (here 99) if it has none;  *)
(* failed: the threads that have seen a failure (more than once for repeated ones)          *)

Idle == 99
Dead == 98
Workers == 1 .. n
Ended == pc \in {"paths", "panicked", "aborted"}

Init == /\ n \in Threads /\ pc = "create" /\ created = 0 /\ queue = 0
        /\ busy = [w \in 1 .. n |-> Idle] /\ kept = FALSE
        /\ failed = [w \in 1 .. n |-> 0] /\ did = 0 /\ calls = 0

Alive == {w \in Workers : busy[w] # Dead}
Stop == kept /\ Mutant \notin {"goeson", "dies"}
Create == /\ pc = "create" /\ created < First /\ ~ Stop
          /\ IF Alive = {} THEN pc' = "aborted" /\ UNCHANGED <<created, queue>>
             ELSE created' = created + 1 /\ queue' = queue + 1 /\ UNCHANGED pc
          /\ UNCHANGED <<n, busy, kept, failed, did, calls>>
(* (the remaining first steps are one more task) *)
Rest == /\ pc = "create" /\ (created = First \/ Stop)
        /\ IF Alive = {} THEN pc' = "aborted" /\ UNCHANGED queue
           ELSE pc' = "wait" /\ queue' = queue + 1
        /\ UNCHANGED <<n, created, busy, kept, failed, did, calls>>
Start(w) == /\ queue > 0 /\ busy[w] = Idle
            /\ queue' = queue - 1
            /\ \E k \in (IF Stop THEN {Idle} ELSE 0 .. Calls) : busy' = [busy EXCEPT ![w] = k]
            /\ UNCHANGED <<n, pc, created, kept, failed, did, calls>>
Call(w) == /\ busy[w] \in 1 .. Calls
           /\ busy' = [busy EXCEPT ![w] = @ - 1] /\ calls' = calls + 1
           /\ UNCHANGED <<n, pc, created, queue, kept, failed, did>>
Fail(w) == /\ busy[w] \in 1 .. Calls
           /\ busy' = [busy EXCEPT ![w] = IF Mutant = "dies" THEN Dead
                                          ELSE IF Mutant = "stuck" THEN 0 ELSE Idle]
           /\ kept' = (Mutant # "swallow")
           /\ failed' = [failed EXCEPT ![w] = @ + 1] /\ calls' = calls + 1
           /\ UNCHANGED <<n, pc, created, queue, did>>
Finish(w) == /\ busy[w] = 0 /\ ~ (Mutant = "stuck" /\ failed[w] > 0)
             /\ busy' = [busy EXCEPT ![w] = Idle] /\ did' = did + 1
             /\ UNCHANGED <<n, pc, created, queue, kept, failed, calls>>
Return == /\ pc = "wait"
          /\ \/ queue = 0 /\ \A w \in Workers : busy[w] \in {Idle, Dead}
             \/ Mutant = "early" /\ kept
             \/ Alive = {}
          /\ pc' = IF kept THEN "panicked" ELSE "paths"
          /\ UNCHANGED <<n, created, queue, busy, kept, failed, did, calls>>
Step == Create \/ Rest \/ Return
Work == \E w \in Workers : Start(w) \/ Call(w) \/ Fail(w) \/ Finish(w)
Next == Step \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Work)

AnyFailed == \E w \in Workers : failed[w] > 0
FailsAsAWhole == (pc = "paths" => ~ AnyFailed) /\ (pc = "panicked" => AnyFailed)
NeverAborts == pc # "aborted"
OnlyOnce == \A w \in Workers : failed[w] <= 1
NothingAfterwards == Ended => \A w \in Workers : busy[w] \in {Idle, Dead}
Complete == pc = "paths" => did = First + 1
Ends == <>Ended
Silent == [][Ended => calls' = calls]_vars
=============================================================================
