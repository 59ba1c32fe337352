----------------------------- MODULE Operational -----------------------------
(***************************************************************************)
(* How the code represents a schedule in progress: counters of the open    *)
(* dependencies of each blocked node, an explicit list of measurable       *)
(* nodes, a state per node, and the current and the maximum memory, all    *)
(* updated incrementally, one node of a step after the other, in any       *)
(* order.  The invariants say that this represents what Mbqc.tla           *)
(* defines; they are what makes it sound to judge the code by Mbqc.tla     *)
(* (C02, C08, C09).                                                        *)
(***************************************************************************)
EXTENDS Small, Sequences, SequencesExt

CONSTANTS Raws

VARIABLES ix, meas, count, state, cur, max, todo, size, path
vars == <<ix, meas, count, state, cur, max, todo, size, path>>

(* The instances are numbered, so that TLC derives each of them only once. *)
RawSeq == SetToSeq(Raws)
Derived == [j \in DOMAIN RawSeq |-> Derive(RawSeq[j])]
raw == RawSeq[ix]
I == Derived[ix]

Init == /\ ix \in DOMAIN RawSeq
        /\ LET J == Derived[ix] IN
           /\ meas = {v \in J.ord : J.deps[v] = {}}
           /\ count = [v \in {w \in J.ord : J.deps[w] # {}} |-> Cardinality(J.deps[v])]
           /\ state = [v \in J.nodes |-> 0]
        /\ cur = 0
        /\ max = 0
        /\ todo = {}
        /\ size = 0
        /\ path = <<>>

(* A step is accepted: its nodes are taken out of the measurable ones, and the       *)
(* counters of the dependents decrease; whoever reaches zero becomes measurable.     *)
Begin(S) ==
  /\ todo = {}
  /\ S # {}
  /\ S \subseteq meas
  /\ LET left == [v \in DOMAIN count |->
                    count[v] - Cardinality({s \in S : s \in I.deps[v]})]
         free == {v \in DOMAIN count : left[v] = 0}
     IN  /\ meas' = (meas \ S) \cup free
         /\ count' = [v \in DOMAIN count \ free |-> left[v]]
  /\ todo' = S
  /\ size' = Cardinality(S)
  /\ path' = Append(path, S)
  /\ UNCHANGED <<ix, state, cur, max>>

(* One node of the step is measured: it and its sleeping neighbours get initialised. *)
MeasureOne(v) ==
  /\ v \in todo
  /\ LET woken == {w \in I.nb[v] : state[w] = 0} IN
     /\ state' = [w \in I.nodes |-> IF w = v THEN 2
                                    ELSE IF w \in woken THEN 1 ELSE state[w]]
     /\ LET now == cur + (IF state[v] = 0 THEN 1 ELSE 0) + Cardinality(woken) IN
        IF todo = {v}
        THEN /\ max' = Max2(max, now)
             /\ cur' = now - size
        ELSE cur' = now /\ UNCHANGED max
  /\ todo' = todo \ {v}
  /\ UNCHANGED <<ix, meas, count, size, path>>

Next == (\E S \in SUBSET meas : Begin(S)) \/ (\E v \in todo : MeasureOne(v))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

M == MeasuredBy(path)
Rest == todo = {}

TimeRefines == /\ meas = Measurable(I, M)
               /\ DOMAIN count = Blocked(I, M)
               /\ \A v \in DOMAIN count : count[v] = Cardinality(I.deps[v] \ M)
StateRefines == Rest => \A v \in I.nodes : state[v] = NodeState(I, M, v)
MemoryRefines == Rest => cur = Current(I, M) /\ max = SpaceOf(I, path)
NeverNegative == cur >= 0
PathValid == ValidPrefix(I, path)
(* nothing measurable is left exactly if the schedule is complete: no deadlock *)
LeafIsComplete == Rest => (meas = {} <=> Complete(I, M))
NeedsDepth ==
  path = <<>> => StepsNeeded(I, {}) = MaxOf({DepthOf(I, v) : v \in I.ord})
InputsSane == path = <<>> => WellFormed(raw)

(* every schedule gets complete *)
Completes == <>(Complete(I, M) /\ Rest)
=============================================================================
