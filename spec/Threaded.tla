------------------------------ MODULE Threaded -------------------------------
(***************************************************************************)
(* The multi-threaded search.  The first steps of the tree become tasks,   *)
(* at most Bound of them, and one more task takes the rest; they are put   *)
(* into a queue in that order, while the workers already take tasks out of *)
(* it.  A task copies the shared bounds (Snapshot), searches and           *)
(* exchanges its bounds with the shared ones once in a while (Sync), and   *)
(* finally merges its results into the shared ones (Merge).  A search step *)
(* only affects the task itself, therefore the steps up to the next        *)
(* exchange are one action.  The interval between two exchanges is         *)
(* arbitrary here.                                                         *)
(*                                                                         *)
(* Mutant selects deliberately wrong variants.  They are used to see that  *)
(* the properties can tell, and to generate the schedules for the real     *)
(* code on which such a mistake shows:                                     *)
(*   overwrite  the code before the repair: when a task merges, the bounds *)
(*              that it took over from others make it overwrite their      *)
(*              results by its own worse ones                              *)
(*   blind      all results of the task are inserted                       *)
(*   sync       an exchange overwrites the shared bounds                   *)
(*   stale      an exchange does not write the shared bounds atomically: a *)
(*              merge overwrites them                                      *)
(*   ahead      a merge takes over the bounds but not the results if they  *)
(*              are equal                                                  *)
(*   noinit     a task whose first step completes the schedule records     *)
(*              nothing if it has been told a bound                        *)
(***************************************************************************)
EXTENDS Small, Dfs, SequencesExt

CONSTANTS Raws, Workers, Bounds, MaxSyncs, Mutant, MayCut

NOTASK == -2
REST == -1

VARIABLES ix, bound,
          tasks,     \* tasks that have not been taken: sequence of [id, node, path]
          worker,    \* worker -> [pc, id, s, init, syncs]
          shared,    \* the shared bounds
          results,   \* the shared results
          due,       \* the timer
          sched,     \* the order of the critical sections (history)
          found      \* all schedules completed by tasks that have ended (history)
vars == <<ix, bound, tasks, worker, shared, results, due, sched, found>>

(* The instances are numbered, so that TLC derives each of them only once. *)
RawSeq == SetToSeq(Raws)
Derived == [j \in DOMAIN RawSeq |-> Derive(RawSeq[j])]
raw == RawSeq[ix]
I == Derived[ix]
Flats == [j \in DOMAIN RawSeq |-> Flat(RawSeq[j].order)]
flat == Flats[ix]

Root(J, r) == RootNode(J, r)
Spawned(J, r, b) == LET n == Len(Root(J, r).todo) IN IF b < n THEN b ELSE n

TaskList(J, r, b) ==
  LET root == Root(J, r)
      n == Spawned(J, r, b)
      f == Flat(r.order)
  IN  [j \in 1 .. n |-> [id   |-> j - 1,
                         node |-> Child(J, f, root, root.todo[j]),
                         path |-> << Range(root.todo[j].s) >>]]
      \o << [id   |-> REST,
             node |-> [root EXCEPT !.todo = SubSeq(root.todo, n + 1, Len(root.todo))],
             path |-> <<>>] >>

Idle == [pc |-> "idle", id |-> NOTASK, s |-> <<>>, init |-> FALSE, syncs |-> 0]

Init == /\ ix \in DOMAIN RawSeq
        /\ bound \in Bounds
        /\ LET J == Derived[ix] IN
           /\ tasks = TaskList(J, RawSeq[ix], bound)
           /\ shared = NoBest(J)
        /\ worker = [w \in Workers |-> Idle]
        /\ results = <<>>
        /\ due = FALSE
        /\ sched = <<>>
        /\ found = {}

(* Workers are interchangeable: the first idle one takes the next task. *)
FirstIdle(w) == /\ worker[w].pc = "idle"
                /\ \A v \in Workers : worker[v].pc = "idle" => w <= v

Take(w) ==
  /\ tasks # <<>>
  /\ FirstIdle(w)
  /\ LET t == Head(tasks) IN
     IF due
     THEN UNCHANGED worker      \* queued until after the timeout: nothing to do
     ELSE worker' = [worker EXCEPT ![w] =
            [pc |-> "start", id |-> t.id, s |-> Searcher(I, t.node, t.path, shared),
             init |-> t.id # REST, syncs |-> 0]]
  /\ tasks' = Tail(tasks)
  /\ UNCHANGED <<ix, bound, shared, results, due, sched, found>>

Snapshot(w) ==
  /\ worker[w].pc = "start"
  /\ worker' = [worker EXCEPT ![w].pc = "search", ![w].s.best = shared]
  /\ sched' = Append(sched, <<worker[w].id, "snapshot", 0>>)
  /\ UNCHANGED <<ix, bound, tasks, shared, results, due, found>>

(* The states of the searcher after 1, 2, ... steps. *)
RECURSIVE Run(_, _)
Run(s, k) == IF k = 0 \/ s.done THEN s ELSE Run(DfsStep(I, flat, s, TRUE), k - 1)
RECURSIVE Exhaust(_)
Exhaust(s) == IF s.done THEN s ELSE Exhaust(DfsStep(I, flat, s, TRUE))

PointwiseMin(f, g) == [t \in DOMAIN f |-> Min2(f[t], g[t])]

(* k steps, and then an exchange; the exchange is also where the timeout is noticed *)
StepsLeft(s) == Exhaust(s).steps - s.steps

Sync(w, k) ==
  /\ worker[w].pc = "search"
  /\ worker[w].syncs < MaxSyncs
  /\ k <= StepsLeft(worker[w].s)
  /\ LET s == Run(worker[w].s, k)
         both == PointwiseMin(s.best, shared)
     IN  /\ shared' = IF Mutant = "sync" THEN s.best ELSE both
         /\ worker' = [worker EXCEPT ![w].s = [s EXCEPT !.best = both],
                                     ![w].syncs = worker[w].syncs + 1,
                                     ![w].pc = IF due THEN "merge" ELSE "search"]
         /\ sched' = Append(sched, <<worker[w].id, "sync", s.steps>>)
  /\ UNCHANGED <<ix, bound, tasks, results, due, found>>

(* The rest of the search; a task whose only node is a complete schedule never makes *)
(* a step and records it here.                                                       *)
Finish(w) ==
  /\ worker[w].pc = "search"
  /\ LET s == Exhaust(worker[w].s)
         t == IF /\ s.steps = 0 /\ worker[w].init
                 /\ Mutant = "noinit" => s.best = NoBest(I)
              THEN Record(I, s, Top(s).mem) ELSE s
     IN  worker' = [worker EXCEPT ![w].s = t, ![w].pc = "merge"]
  /\ UNCHANGED <<ix, bound, tasks, shared, results, due, sched, found>>

Merge(w) ==
  /\ worker[w].pc = "merge"
  /\ LET s == worker[w].s
         better(t) == IF Mutant = "ahead" THEN shared[t] > s.best[t]
                      ELSE shared[t] >= s.best[t]
         take(t) == /\ t \in DOMAIN s.res
                    /\ \/ Mutant = "blind"
                       \/ /\ better(t)
                          /\ Mutant # "overwrite" => s.res[t][1] <= s.best[t]
         times == (DOMAIN results) \cup {t \in DOMAIN s.res : take(t)}
     IN  /\ IF DOMAIN s.res = {}
            THEN UNCHANGED <<shared, results, sched>>
            ELSE /\ shared' = [t \in DOMAIN shared |->
                                 IF better(t) \/ Mutant = "stale"
                                 THEN s.best[t] ELSE shared[t]]
                 /\ results' = [t \in times |->
                                  IF t \in DOMAIN s.res /\ take(t) THEN s.res[t]
                                  ELSE results[t]]
                 /\ sched' = Append(sched, <<worker[w].id, "merge", 0>>)
         /\ found' = found \cup s.seen
  /\ worker' = [worker EXCEPT ![w] = Idle]
  /\ UNCHANGED <<ix, bound, tasks, due>>

Expire == /\ MayCut
          /\ ~ due
          /\ due' = TRUE
          /\ UNCHANGED <<ix, bound, tasks, worker, shared, results, sched, found>>

MaxSteps == 40
Next == \/ \E w \in Workers : \/ Take(w) \/ Snapshot(w) \/ Finish(w) \/ Merge(w)
                              \/ \E k \in 1 .. MaxSteps : Sync(w, k)
        \/ Expire
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllDone == tasks = <<>> /\ \A w \in Workers : worker[w].pc = "idle"

Frontiers == [j \in DOMAIN RawSeq |-> Frontier(Derived[j])]
TrueFrontier == Frontiers[ix]
Out == Listed(I, results)

(* C05 *)
ExactFrontier == AllDone /\ ~ due => Out = TrueFrontier
(* C11: nothing that has been found gets lost, also if the timeout strikes *)
KeepsFound == AllDone => \A c \in found : \E o \in Out : Dominates(o, c)
(* the shared bounds are always achieved by something that was found *)
AllCosts == [j \in DOMAIN RawSeq |-> Costs(Derived[j])]
BoundsAreReal == \A t \in DOMAIN shared :
   shared[t] # INF => \E c \in AllCosts[ix] : c[1] <= t /\ c[2] = shared[t]
ResultsTrue == \A t \in DOMAIN results :
                 ValidSchedule(I, results[t][2]) /\ Len(results[t][2]) = t
                 /\ SpaceOf(I, results[t][2]) = results[t][1]
(* The invariants of Bounds.tla, which make its theorem (nothing gets lost, whatever the *)
(* instance, the number of tasks and the interleaving) apply to this search.            *)
Searching == {w \in Workers : worker[w].pc \in {"search", "merge"}}
Backed(t, x) ==
  \/ \E u \in DOMAIN results : u <= t /\ results[u][1] <= x
  \/ \E w \in Searching : \E u \in DOMAIN worker[w].s.res :
        u <= t /\ worker[w].s.res[u][1] <= x
Ordered ==
  /\ \A t \in DOMAIN results : shared[t] <= results[t][1]
  /\ \A w \in Searching : \A t \in DOMAIN worker[w].s.res :
        worker[w].s.best[t] <= worker[w].s.res[t][1]
BackedBounds ==
  /\ \A t \in DOMAIN shared : shared[t] # INF => Backed(t, shared[t])
  /\ \A w \in Searching : \A t \in DOMAIN shared :
        worker[w].s.best[t] # INF => Backed(t, worker[w].s.best[t])
  /\ \A c \in found \cup UNION {worker[w].s.seen : w \in Searching} : Backed(c[1], c[2])
(* C16 *)
BoundRespected == Cardinality({t \in DOMAIN tasks : tasks[t].id # REST}) <= bound
Terminates == <>AllDone

(* the history of the schedule does not distinguish states *)
View == <<ix, bound, tasks, worker, shared, results, due, found>>
=============================================================================
