------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* Why no interleaving of the tasks loses an optimal schedule, for         *)
(* inputs, numbers of tasks and schedules of any size.  This abstracts     *)
(* Threaded.tla from the instances: a leaf of the search tree is a pair    *)
(* (t, m), the length and the memory of a complete schedule.  A task may   *)
(* explore any leaves in any order; those below the bounds are recorded    *)
(* when the search returns from them (Enter, Record; an exchange of bounds *)
(* may come in between), and those which cannot be better are pruned.      *)
(* A task may end at any time, since there may be a timeout.               *)
(*                                                                         *)
(* The theorem (Lossless): whatever has been explored or pruned by the     *)
(* tasks that have ended is dominated by a result when all have ended;     *)
(* with the results being recorded leaves (Real) this is C05 and C11.      *)
(* The proof is checked by TLAPS; TLC checks the same invariants on small  *)
(* instances and Threaded.tla checks them for the actual search.           *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Tasks, N, Values, INF

ASSUME Assumptions ==
  /\ N \in Nat
  /\ Values \subseteq Nat
  /\ INF \in Nat
  /\ \A m \in Values : m < INF

Times == 0 .. N
Costs == Values \cup {INF}

VARIABLES shared,    \* the shared bounds
          results,   \* the shared results (their memory); INF for none
          best,      \* the bounds of a task
          res,       \* the results of a task
          leaf,      \* the leaf a task has entered but not recorded
          live,      \* the tasks that are running
          seen       \* what has been explored or pruned (history)
vars == <<shared, results, best, res, leaf, live, seen>>

None == <<0, INF>>
Least(a, b) == IF a <= b THEN a ELSE b

Init == /\ shared = [t \in Times |-> INF]
        /\ results = [t \in Times |-> INF]
        /\ best = [w \in Tasks |-> [t \in Times |-> INF]]
        /\ res = [w \in Tasks |-> [t \in Times |-> INF]]
        /\ leaf = [w \in Tasks |-> None]
        /\ live = {}
        /\ seen = {}

(* a task that ended may be taken for a new one *)
Start(w) ==
  /\ w \notin live
  /\ live' = live \cup {w}
  /\ best' = [best EXCEPT ![w] = shared]
  /\ UNCHANGED <<shared, results, res, leaf, seen>>

Enter(w, t, m) ==
  /\ w \in live
  /\ leaf[w] = None
  /\ \/ m < best[w][t]
     \/ \A u \in Times : res[w][u] = INF   \* the first step completes the schedule
  /\ leaf' = [leaf EXCEPT ![w] = <<t, m>>]
  /\ UNCHANGED <<shared, results, best, res, live, seen>>

Record(w) ==
  /\ w \in live
  /\ leaf[w] # None
  /\ LET t == leaf[w][1]
         m == leaf[w][2]
     IN  /\ best' = [best EXCEPT ![w] = [u \in Times |->
                       IF u < t THEN best[w][u]
                       ELSE IF u = t THEN m ELSE Least(best[w][u], m)]]
         /\ res' = [res EXCEPT ![w] = [u \in Times |->
                       IF u = t THEN m ELSE res[w][u]]]
         /\ seen' = seen \cup {<<t, m>>}
  /\ leaf' = [leaf EXCEPT ![w] = None]
  /\ UNCHANGED <<shared, results, live>>

(* a leaf of length t below a node whose shortest completion has the length u <= t *)
Prune(w, t, m) ==
  /\ w \in live
  /\ \E u \in Times : u <= t /\ best[w][u] <= m
  /\ seen' = seen \cup {<<t, m>>}
  /\ UNCHANGED <<shared, results, best, res, leaf, live>>

Sync(w) ==
  /\ w \in live
  /\ shared' = [t \in Times |-> Least(best[w][t], shared[t])]
  /\ best' = [best EXCEPT ![w] = [t \in Times |-> Least(best[w][t], shared[t])]]
  /\ UNCHANGED <<results, res, leaf, live, seen>>

Taken(w, t) == /\ res[w][t] # INF
               /\ shared[t] >= best[w][t]
               /\ res[w][t] <= best[w][t]

End(w) ==
  /\ w \in live
  /\ live' = live \ {w}
  /\ \/ /\ \A t \in Times : res[w][t] = INF
        /\ UNCHANGED <<shared, results>>
     \/ /\ shared' = [t \in Times |-> Least(best[w][t], shared[t])]
        /\ results' = [t \in Times |-> IF Taken(w, t) THEN res[w][t] ELSE results[t]]
  /\ res' = [res EXCEPT ![w] = [t \in Times |-> INF]]
  /\ leaf' = [leaf EXCEPT ![w] = None]
  /\ UNCHANGED <<best, seen>>

Next == \E w \in Tasks :
          \/ Start(w) \/ Record(w) \/ Sync(w) \/ End(w)
          \/ \E t \in Times, m \in Values : Enter(w, t, m) \/ Prune(w, t, m)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK ==
  /\ shared \in [Times -> Costs]
  /\ results \in [Times -> Costs]
  /\ best \in [Tasks -> [Times -> Costs]]
  /\ res \in [Tasks -> [Times -> Costs]]
  /\ leaf \in [Tasks -> (Times \X Values) \cup {None}]
  /\ live \in SUBSET Tasks
  /\ seen \in SUBSET (Times \X Values)

(* Something at least as good is among the results, or will be. *)
Backed(t, x) ==
  \E u \in Times : /\ u <= t
                   /\ \/ results[u] <= x
                      \/ \E v \in Tasks : res[v][u] <= x

Ordered ==
  /\ \A t \in Times : shared[t] <= results[t]
  /\ \A w \in Tasks, t \in Times : w \in live => best[w][t] <= res[w][t]
  /\ \A w \in Tasks : /\ leaf[w] # None => leaf[w][2] <= res[w][leaf[w][1]]
                      /\ w \notin live => leaf[w] = None
  /\ \A w \in Tasks, t \in Times : w \notin live => res[w][t] = INF

BackedBounds ==
  /\ \A t \in Times : shared[t] < INF => Backed(t, shared[t])
  /\ \A w \in Tasks, t \in Times :
       w \in live /\ best[w][t] < INF => Backed(t, best[w][t])
  /\ \A p \in seen : Backed(p[1], p[2])

Inv == TypeOK /\ Ordered /\ BackedBounds

Lossless ==
  live = {} => \A p \in seen : \E u \in Times : u <= p[1] /\ results[u] <= p[2]
Real == /\ \A t \in Times : results[t] # INF => <<t, results[t]>> \in seen
        /\ \A w \in Tasks, t \in Times : res[w][t] # INF => <<t, res[w][t]>> \in seen
=============================================================================
