---------------------------- MODULE TraceEndless -----------------------------
(***************************************************************************)
(* The command line tool on a problem whose search would take forever      *)
(* (C15): the timeout and the number of threads have to be the given ones. *)
(*                                                                         *)
(* data.json: runs, a list of records with search, timed (is the timeout   *)
(*   at least a second?), due, took (milliseconds of real time: the        *)
(*   timeout and the duration), n, tasks (how many tasks there are, at     *)
(*   most n), hung, exit, threads (the largest number seen), parsed, paths *)
(*   (the number of paths in the result)                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json

Data == JsonDeserialize("data.json")
VARIABLE c
R == Data.runs[c]
Init == c \in DOMAIN Data.runs
Spec == Init /\ [][FALSE]_c

Ends == ~ R.hung /\ R.exit = 0 /\ R.parsed
NotEarly == R.search => R.took >= R.due
HasResult == (~ R.search => R.paths = 1)
(* the calling thread, the timer's thread and the workers *)
Threads == /\ R.threads <= 2 + (IF R.search /\ R.n >= 2 THEN R.n ELSE 0)
           /\ (R.search /\ R.timed /\ R.n >= 2) => R.threads >= R.tasks
=============================================================================
