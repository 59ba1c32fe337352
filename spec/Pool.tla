--------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* How a multi-threaded search distributes its work (C16): the caller      *)
(* creates a task for each first step, until the bound is reached or the   *)
(* timeout has struck, and one for the remaining first steps; a number of  *)
(* workers takes the tasks from a queue; the caller returns when all of    *)
(* them are done.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS First,    \* the number of first steps
          Threads,  \* the possible numbers of workers
          Bounds,   \* the possible task bounds
          Mutant    \* "none", or a mistake: "onemore", "nowait", "norest", "again"

VARIABLES n, b, pc, created, queue, busy, did, cut
vars == <<n, b, pc, created, queue, busy, did, cut>>
(* created: the number of separate tasks; a task is a set of first steps, and whether it  *)
(* is the one for the remainder; did: how often each first step was searched              *)

All == 1 .. First
Init == /\ n \in Threads /\ b \in Bounds
        /\ pc = "create" /\ created = 0 /\ queue = <<>> /\ cut = FALSE
        /\ busy = [w \in 1 .. n |-> {}]
        /\ did = [s \in All |-> 0]

More == /\ created < First /\ ~ cut
        /\ IF Mutant = "onemore" THEN created <= b ELSE created < b
Create == /\ pc = "create" /\ More
          /\ created' = created + 1
          /\ queue' = Append(queue, {created + 1})
          /\ UNCHANGED <<n, b, pc, busy, did, cut>>
Rest == /\ pc = "create" /\ ~ More
        /\ queue' = IF Mutant = "norest" THEN queue
                    ELSE Append(queue, (IF Mutant = "again" THEN All
                                        ELSE (created + 1) .. First) \cup {0})
        /\ pc' = IF Mutant = "nowait" THEN "returned" ELSE "wait"
        /\ UNCHANGED <<n, b, created, busy, did, cut>>
Start(w) == /\ queue # <<>> /\ busy[w] = {}
            /\ busy' = [busy EXCEPT ![w] = Head(queue) \cup {0}]
            /\ queue' = Tail(queue)
            /\ UNCHANGED <<n, b, pc, created, did, cut>>
Finish(w) == /\ busy[w] # {}
             /\ busy' = [busy EXCEPT ![w] = {}]
             /\ \E part \in SUBSET busy[w] :
                  /\ cut \/ part = busy[w]
                  /\ did' = [s \in All |-> did[s] + IF s \in part THEN 1 ELSE 0]
             /\ UNCHANGED <<n, b, pc, created, queue, cut>>
Return == /\ pc = "wait" /\ queue = <<>> /\ \A w \in DOMAIN busy : busy[w] = {}
          /\ pc' = "returned"
          /\ UNCHANGED <<n, b, created, queue, busy, did, cut>>
Cut == /\ ~ cut /\ pc # "returned" /\ cut' = TRUE
       /\ UNCHANGED <<n, b, pc, created, queue, busy, did>>
Next == Create \/ Rest \/ Return \/ Cut \/ (\E w \in DOMAIN busy : Start(w) \/ Finish(w))
Spec == Init /\ [][Next]_vars
        /\ WF_vars(Create \/ Rest \/ Return) /\ WF_vars(\E w \in DOMAIN busy : Start(w) \/ Finish(w))

AtMostBound == created <= b
AtMostThreads == Cardinality({w \in DOMAIN busy : busy[w] # {}}) <= n
NothingAfterwards == pc = "returned" => queue = <<>> /\ \A w \in DOMAIN busy : busy[w] = {}
EachOnce == /\ \A s \in All : did[s] <= 1
            /\ pc = "returned" /\ ~ cut => \A s \in All : did[s] = 1
Returns == <>(pc = "returned")
=============================================================================
