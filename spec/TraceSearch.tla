----------------------------- MODULE TraceSearch -----------------------------
(***************************************************************************)
(* Replays the logs of probabilistic searches of the real code, move by    *)
(* move: which steps are entered, which of them the accept function is     *)
(* asked about, with which arguments (C13), how it answers and what the    *)
(* search does then (C12), and which schedules get completed.              *)
(*                                                                         *)
(* data.json: insts; reals, for each run the costs of all schedules that   *)
(* its tasks had completed, in the order of the log; and segments, one     *)
(* per search task (one for a single-threaded search), a list of records   *)
(* with                                                                    *)
(*   ins, run                                                              *)
(*   alone    whether the search is single-threaded                        *)
(*   start    the path the task starts with                                *)
(*   events   a list of records with                                       *)
(*     k      "F": a step is entered, "B": left, "A": the accept function  *)
(*     path   the path before the move (F, B)                              *)
(*     s      the step (F)                                                 *)
(*     leaf   the memory of the schedule completed by the move, or -1 (B)  *)
(*     a      the arguments, -1 stands for usize::MAX (A)                  *)
(*     v      0: it answered 0; 2: at least 1; 1: something in between (A) *)
(*     real   the number of entries of reals that precede (A)              *)
(***************************************************************************)
EXTENDS Mbqc, Json

Data == JsonDeserialize("data.json")
Insts == [k_ \in DOMAIN Data.insts |-> Derive(Data.insts[k_])]
Segments == Data.segments
MAX == 1000000

VARIABLES c, p,
          path,   \* the path the search is on, as sets
          cand,   \* the step that has just been entered: <<>> or <<set>>
          answer, \* what the accept function said to it: -1 if it was not asked
          found,  \* the costs of the schedules completed by this task
          err, blocked
vars == <<c, p, path, cand, answer, found, err, blocked>>
(* blocked: whether the number of remaining nodes was, instead, always the number of    *)
(* nodes that cannot be measured yet, where these differ (the known finding)             *)

Seg == Segments[c]
I == Insts[Seg.ins]
Ev == Seg.events[p + 1]
Sets(q) == [k \in DOMAIN q |-> Range(q[k])]

RECURSIVE First(_)
First(checks) == IF checks = <<>> THEN ""
                 ELSE IF Head(checks)[1] THEN First(TLCEval(Tail(checks))) ELSE Head(checks)[2]

Init == /\ c \in DOMAIN Segments
        /\ p = 0
        /\ path = Sets(Segments[c].start)
        /\ cand = <<>>
        /\ answer = -1
        /\ found = {}
        /\ err = IF ValidPrefix(Insts[Segments[c].ins], Sets(Segments[c].start))
                 THEN "" ELSE "start"
        /\ blocked = FALSE

Active == err = "" /\ p < Len(Seg.events)
Advance == p' = p + 1 /\ UNCHANGED c

(* Where the next move starts decides whether the entered step has been taken. *)
Taken == cand # <<>> /\ Sets(Ev.path) = path \o cand
Here == IF Taken THEN path \o cand ELSE path
Resolution == <<
  <<Sets(Ev.path) = Here, "path">>,
  <<Taken => answer # -1, "step taken without being asked about">>,
  <<Taken => answer # 0, "rejected step taken">>,
  <<cand # <<>> /\ answer = 2 => Taken, "accepted step not taken">> >>

Enter ==
  /\ Active /\ Ev.k = "F"
  /\ LET here == TLCEval(Here)
         S == Range(Ev.s)
     IN  /\ err' = First(TLCEval(Resolution \o <<
                     <<S # {} /\ S \subseteq Measurable(I, MeasuredBy(here)), "step">> >>))
         /\ path' = here
         /\ cand' = <<S>>
  /\ answer' = -1
  /\ UNCHANGED <<found, blocked>>
  /\ Advance

Leave ==
  /\ Active /\ Ev.k = "B"
  /\ LET here == TLCEval(Here) IN
     /\ err' = First(TLCEval(Resolution \o <<
                 <<here # <<>>, "left the root">>,
                 <<(Ev.leaf >= 0) = Complete(I, MeasuredBy(here)), "leaf">>,
                 <<Ev.leaf >= 0 => Ev.leaf = SpaceOf(I, here), "memory of the leaf">> >>))
     /\ path' = IF here = <<>> THEN here ELSE SubSeq(here, 1, Len(here) - 1)
     /\ found' = IF Ev.leaf >= 0 THEN found \cup {<<Len(here), Ev.leaf>>} ELSE found
  /\ cand' = <<>>
  /\ answer' = -1
  /\ UNCHANGED blocked
  /\ Advance

Least(costs, T) ==
  LET below == {x \in costs : x[1] <= T}
  IN  IF below = {} THEN MAX ELSE MinOf({x[2] : x \in below})
Value(a) == IF a = -1 THEN MAX ELSE a
Real(n) == {Data.reals[Seg.run][j] : j \in 1 .. n}

Ask ==
  /\ Active /\ Ev.k = "A"
  /\ LET M == TLCEval(MeasuredBy(path))
         S == TLCEval(IF cand = <<>> THEN {} ELSE cand[1])
         N == TLCEval(M \cup S)
         chain == TLCEval(StepsNeeded(I, N))
         lo == Len(path) + 1 + Min2(2, chain)
         hi == Len(path) + 1 + chain
         mine(T) == Least(found, T)
         any(T) == {x[2] : x \in {y \in Real(Ev.real) : y[1] <= T}} \cup {MAX}
         bound == Value(Ev.a[1])
         least == Value(Ev.a[2])
         left == Cardinality(I.ord \ N)
         open == Cardinality(Blocked(I, N))
     IN  /\ err' = First(TLCEval(<<
              <<cand # <<>> /\ answer = -1, "asked at the wrong time">>,
              <<Len(Ev.a) = 7, "number of arguments">>,
              <<Ev.a[3] = SpaceOf(I, path), "maximum memory before the step">>,
              <<Ev.a[4] = Current(I, M), "current memory before the step">>,
              <<Ev.a[5] = Current(I, N), "current memory after the step">>,
              <<Ev.a[6] \in {left, open}, "remaining nodes">>,
              <<Ev.a[7] = I.n, "total number of nodes">>,
              <<IF Seg.alone THEN least = mine(MAX)
                ELSE least \in any(MAX) /\ least <= mine(MAX), "least space">>,
              <<IF Seg.alone THEN \E T \in lo .. hi : bound = mine(T)
                ELSE bound \in any(hi) /\ bound <= mine(lo), "least space for the length">> >>))
         /\ blocked' = (blocked \/ (Ev.a[6] # left /\ Ev.a[6] = open))
  /\ answer' = Ev.v
  /\ UNCHANGED <<path, cand, found>>
  /\ Advance

Next == Enter \/ Leave \/ Ask
Spec == Init /\ [][Next]_vars

MovesFit == err = ""
(* an invariant that is expected to fail as long as there is the known finding *)
RemainingIsExact == ~ blocked
ASSUME Sane == \A j \in DOMAIN Data.insts : WellFormed(Data.insts[j])
=============================================================================
