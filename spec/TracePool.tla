------------------------------ MODULE TracePool ------------------------------
(***************************************************************************)
(* On which threads the real search works, and in how many tasks (C16).    *)
(* The machine goes through the log of a run, which may know about the     *)
(* tasks (hooks) or only about the calls of the accept function, and keeps *)
(* what Pool.tla bounds.                                                   *)
(*                                                                         *)
(* data.json: cpu (microseconds), and runs, a list of records with         *)
(*   n       the requested number of threads                               *)
(*   bound   the task bound                                                *)
(*   out                                                                   *)
(*   events  [k, t, i]: k is "task" (thread t starts with task i, which is *)
(*           -1 for the remainder), "step" or "call" (of the accept        *)
(*           function); the calling thread has the number 0                *)
(*   first   the number of first steps if nothing was accepted and nothing *)
(*           can be pruned, 0 otherwise                                    *)
(*   root    the number of calls for first steps                           *)
(*   late    calls after the search had returned                           *)
(*   cpu     processor time used after that                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Data == JsonDeserialize("data.json")
VARIABLES c, p, threads, tasks, rest, err
vars == <<c, p, threads, tasks, rest, err>>
R == Data.runs[c]
Ev == R.events[p + 1]

Init == c \in DOMAIN Data.runs /\ p = 0 /\ threads = {} /\ tasks = {} /\ rest = 0 /\ err = ""
Active == R.out = "ok" /\ err = "" /\ p < Len(R.events)

Work == /\ Active /\ Ev.k \in {"step", "call"}
        /\ threads' = threads \cup {Ev.t}
        /\ err' = IF R.n < 2 /\ Ev.t # 0 THEN "not on the calling thread" ELSE ""
        /\ UNCHANGED <<tasks, rest>>
Task == /\ Active /\ Ev.k = "task"
        /\ threads' = threads \cup {Ev.t}
        /\ err' = IF R.n < 2 THEN "a task of its own"
                  ELSE IF Ev.i \in tasks THEN "a task is run twice"
                  ELSE IF Ev.i = -1 /\ rest = 1 THEN "two tasks for the remainder" ELSE ""
        /\ tasks' = IF Ev.i >= 0 THEN tasks \cup {Ev.i} ELSE tasks
        /\ rest' = IF Ev.i = -1 THEN 1 ELSE rest
Next == (Work \/ Task) /\ p' = p + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Ends == R.out = "ok"
WellDistributed == err = ""
AtMostThreads == Cardinality(threads) <= IF R.n < 2 THEN 1 ELSE R.n
AtMostBound == Cardinality(tasks) <= R.bound
(* what the remainder was not asked about must have been a task of its own *)
BoundByCalls == R.out = "ok" /\ R.first > 0 => R.first - R.root <= R.bound
NothingAfterwards == R.out = "ok" => R.late = 0 /\ R.cpu <= Data.cpu
=============================================================================
