------------------------------- MODULE Search --------------------------------
(***************************************************************************)
(* The single-threaded search: pruning, the accept function (which may     *)
(* reject any step it is asked about), the timeout (which may come after   *)
(* any step) and the final filter.                                         *)
(***************************************************************************)
EXTENDS Small, Dfs, SequencesExt

CONSTANTS Raws,
          MayReject,   \* whether steps may be rejected
          MayCut       \* whether there is a timeout

VARIABLES ix, se, pc
vars == <<ix, se, pc>>

(* The instances are numbered, so that TLC derives each of them only once. *)
RawSeq == SetToSeq(Raws)
Derived == [j \in DOMAIN RawSeq |-> Derive(RawSeq[j])]
raw == RawSeq[ix]
I == Derived[ix]
Flats == [j \in DOMAIN RawSeq |-> Flat(RawSeq[j].order)]
flat == Flats[ix]

Init == /\ ix \in DOMAIN RawSeq
        /\ se = LET J == Derived[ix] IN Searcher(J, RootNode(J, RawSeq[ix]), <<>>, NoBest(J))
        /\ pc = "search"

Step(accept) ==
  /\ pc = "search"
  /\ accept \/ (MayReject /\ Next1(I, flat, se) = "ask")
  /\ se' = DfsStep(I, flat, se, accept)
  /\ pc' = IF se'.done THEN "complete" ELSE "search"
  /\ UNCHANGED ix

Timeout == /\ MayCut
           /\ pc = "search"
           /\ se.steps > 0
           /\ pc' = "cut"
           /\ UNCHANGED <<ix, se>>

Next == Step(TRUE) \/ Step(FALSE) \/ Timeout
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Out == Listed(I, se.res)

(* The schedules none of whose prefixes has been rejected. *)
AllSchedules == [j \in DOMAIN RawSeq |-> Schedules(Derived[j])]
Remaining == {P \in AllSchedules[ix] :
                \A k \in DOMAIN P : SubSeq(P, 1, k) \notin se.no}
RemainingFrontier == ParetoOf({<<Len(P), SpaceOf(I, P)>> : P \in Remaining})

(* C04, C12 *)
ExactFrontier == pc = "complete" => Out = RemainingFrontier
(* C11 *)
KeepsFound == \A c \in se.seen : \E o \in Out : Dominates(o, c)
(* C06 *)
IsAntichain == Out = ParetoOf(Out)
(* C01, C02 *)
TrueResults == \A t \in DOMAIN se.res :
                 /\ ValidSchedule(I, se.res[t][2])
                 /\ Len(se.res[t][2]) = t
                 /\ SpaceOf(I, se.res[t][2]) = se.res[t][1]
                 /\ \A k \in 1 .. t : SubSeq(se.res[t][2], 1, k) \notin se.no
(* what the accept function is told (C13): best is a faithful summary *)
BestIsTrue == \A t \in DOMAIN se.best :
                se.best[t] = IF \E c \in se.seen : c[1] <= t
                            THEN MinOf({c[2] : c \in {d \in se.seen : d[1] <= t}})
                            ELSE INF
(* C03: the first schedule that is completed (without rejections) is the greedy one *)
FirstIsFastest ==
  (se.no = {} /\ Cardinality(se.seen) = 1) =>
     \E c \in se.seen : c[1] = StepsNeeded(I, {})
Terminates == <>(pc # "search")
=============================================================================
