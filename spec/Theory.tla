------------------------------- MODULE Theory -------------------------------
(***************************************************************************)
(* What holds for instances of any size, proved with TLAPS: the facts      *)
(* about schedules on which the search relies.                             *)
(***************************************************************************)
EXTENDS Core, NaturalsInduction, FiniteSetTheorems, TLAPS

CONSTANT I

ASSUME Instance ==
  /\ I.ord \subseteq I.nodes
  /\ I.deps \in [I.ord -> SUBSET I.ord]
  /\ I.nb \in [I.nodes -> SUBSET I.nodes]

LEMMA Grows == \A P, i, j : i \in Int /\ j \in Int /\ i <= j => MeasuredIn(P, i) \subseteq MeasuredIn(P, j)
  BY DEF MeasuredIn

LEMMA OneMore ==
  ASSUME NEW P, NEW k \in Nat
  PROVE  MeasuredIn(P, k+1) = MeasuredIn(P, k) \cup P[k+1]
  BY DEF MeasuredIn

-----------------------------------------------------------------------------
(* C01: a valid schedule measures every node exactly once, and after everything that it *)
(* depends on.                                                                          *)
THEOREM OnlyOrdered ==
  ASSUME NEW P \in Seq(SUBSET I.nodes), ValidPrefix(I, P)
  PROVE  \A k \in DOMAIN P : P[k] \subseteq I.ord
  BY DEF ValidPrefix, Measurable

THEOREM ExactlyOnce ==
  ASSUME NEW P \in Seq(SUBSET I.nodes), ValidSchedule(I, P), NEW v \in I.ord
  PROVE  \E k \in DOMAIN P : v \in P[k] /\ \A j \in DOMAIN P : v \in P[j] => j = k
<1>1. DOMAIN P = 1 .. Len(P) /\ Len(P) \in Nat
  OBVIOUS
<1>2. PICK k \in 1 .. Len(P) : v \in P[k]
  BY DEF ValidSchedule, Complete, MeasuredBy, MeasuredIn
<1>3. \A i, j \in 1 .. Len(P) : i < j => ~ (v \in P[i] /\ v \in P[j])
  <2> SUFFICES ASSUME NEW i \in 1 .. Len(P), NEW j \in 1 .. Len(P), i < j, v \in P[i], v \in P[j]
               PROVE  FALSE
    OBVIOUS
  <2>1. v \in MeasuredIn(P, j-1)
    BY <1>1 DEF MeasuredIn
  <2>2. P[j] \subseteq Measurable(I, MeasuredIn(P, j-1))
    BY <1>1 DEF ValidSchedule, ValidPrefix
  <2> QED BY <2>1, <2>2 DEF Measurable
<1>4. ASSUME NEW j \in 1 .. Len(P), v \in P[j] PROVE j = k
  <2>1. ~ (j < k)
    BY <1>2, <1>3, <1>4
  <2>2. ~ (k < j)
    BY <1>2, <1>3, <1>4
  <2>3. j \in Int /\ k \in Int
    BY <1>1
  <2> QED BY ONLY <2>1, <2>2, <2>3
<1> QED BY <1>1, <1>2, <1>4

THEOREM AfterDependencies ==
  ASSUME NEW P \in Seq(SUBSET I.nodes), ValidPrefix(I, P),
         NEW k \in DOMAIN P, NEW v \in P[k], NEW d \in I.deps[v]
  PROVE  \E j \in DOMAIN P : j < k /\ d \in P[j]
<1>1. DOMAIN P = 1 .. Len(P) /\ Len(P) \in Nat
  OBVIOUS
<1>2. d \in MeasuredIn(P, k-1)
  BY DEF ValidPrefix, Measurable
<1>3. PICK j \in 1 .. k-1 : d \in P[j]
  BY <1>2 DEF MeasuredIn
<1> QED BY <1>1, <1>3

-----------------------------------------------------------------------------
(* C04, C12: the lower bound on the length that is used for pruning.  Below a node at   *)
(* which something is left, at least one more step is needed, and two more if something *)
(* is blocked; therefore the bounds for shorter lengths do not prune too much.          *)
THEOREM AtLeastOne ==
  ASSUME NEW P \in Seq(SUBSET I.nodes), ValidSchedule(I, P), NEW k \in 0 .. Len(P),
         ~ Complete(I, MeasuredIn(P, k))
  PROVE  Len(P) >= k + 1
  BY DEF ValidSchedule, MeasuredBy

THEOREM AtLeastTwo ==
  ASSUME NEW P \in Seq(SUBSET I.nodes), ValidSchedule(I, P), NEW k \in 0 .. Len(P),
         Blocked(I, MeasuredIn(P, k)) # {}
  PROVE  Len(P) >= k + 2
<1>1. Len(P) \in Nat /\ DOMAIN P = 1 .. Len(P)
  OBVIOUS
<1>2. ~ Complete(I, MeasuredIn(P, k))
  BY DEF Blocked, Complete
<1>3. Len(P) >= k + 1
  BY <1>2, AtLeastOne
<1>4. PICK v \in Blocked(I, MeasuredIn(P, k)) : TRUE
  OBVIOUS
<1>5. v \in I.ord /\ v \notin MeasuredIn(P, k) /\ v \notin Measurable(I, MeasuredIn(P, k))
  BY <1>4 DEF Blocked
<1>6. P[k+1] \subseteq Measurable(I, MeasuredIn(P, k))
  BY <1>1, <1>3 DEF ValidSchedule, ValidPrefix
<1>7. v \notin MeasuredIn(P, k+1)
  BY <1>5, <1>6, OneMore
<1>8. Len(P) # k + 1
  BY <1>5, <1>7 DEF ValidSchedule, Complete, MeasuredBy
<1> QED BY <1>1, <1>3, <1>8

(* And no step below a node makes the schedule need less memory than the node. *)
LEMMA MaxExists ==
  ASSUME NEW S, S # {}, NEW n \in Nat, S \subseteq 0 .. n
  PROVE  MaxOf(S) \in S /\ \A y \in S : MaxOf(S) >= y
<1> DEFINE Q(k) == \A T : T # {} /\ T \subseteq 0 .. k => \E x \in T : \A y \in T : x >= y
<1>1. Q(0)
  OBVIOUS
<1>2. ASSUME NEW k \in Nat, Q(k) PROVE Q(k+1)
  <2> SUFFICES ASSUME NEW T, T # {}, T \subseteq 0 .. k+1
               PROVE  \E x \in T : \A y \in T : x >= y
    OBVIOUS
  <2>1. CASE k + 1 \in T
    BY <2>1
  <2>2. CASE k + 1 \notin T
    <3>1. T \subseteq 0 .. k
      BY <2>2
    <3> QED BY <1>2, <3>1
  <2> QED BY <2>1, <2>2
<1> HIDE DEF Q
<1>3. \A k \in Nat : Q(k)
  BY ONLY <1>1, <1>2, NatInduction, IsaM("blast")
<1>4. \E x \in S : \A y \in S : x >= y
  BY <1>3 DEF Q
<1> QED BY <1>4 DEF MaxOf

THEOREM SpaceIsMonotone ==
  ASSUME IsFiniteSet(I.nodes), NEW P \in Seq(SUBSET I.nodes), NEW k \in DOMAIN P
  PROVE  Peak(I, MeasuredIn(P, k-1), P[k]) <= SpaceOf(I, P)
<1> DEFINE p(j) == Peak(I, MeasuredIn(P, j-1), P[j])
           S == {p(j) : j \in DOMAIN P}
<1>1. DOMAIN P = 1 .. Len(P) /\ P # <<>>
  OBVIOUS
<1>2. \A j \in DOMAIN P : Held(I, MeasuredIn(P, j-1), P[j]) \subseteq I.nodes
  <2> SUFFICES ASSUME NEW j \in DOMAIN P PROVE Held(I, MeasuredIn(P, j-1), P[j]) \subseteq I.nodes
    OBVIOUS
  <2>1. P[j] \subseteq I.nodes
    OBVIOUS
  <2>2. MeasuredIn(P, j-1) \subseteq I.nodes
    BY <1>1 DEF MeasuredIn
  <2>3. \A T \in SUBSET I.nodes : Neighbours(I, T) \subseteq I.nodes
    BY Instance DEF Neighbours
  <2> QED BY <2>1, <2>2, <2>3 DEF Held, InMemory
<1>3. Cardinality(I.nodes) \in Nat
  BY FS_CardinalityType
<1>4. \A j \in DOMAIN P : p(j) \in 0 .. Cardinality(I.nodes)
  <2> TAKE j \in DOMAIN P
  <2>1. /\ IsFiniteSet(Held(I, MeasuredIn(P, j-1), P[j]))
        /\ Cardinality(Held(I, MeasuredIn(P, j-1), P[j])) <= Cardinality(I.nodes)
    BY <1>2, FS_Subset
  <2>2. Cardinality(Held(I, MeasuredIn(P, j-1), P[j])) \in Nat
    BY <2>1, FS_CardinalityType
  <2> QED BY <1>3, <2>1, <2>2 DEF Peak
<1>5. S \subseteq 0 .. Cardinality(I.nodes) /\ S # {}
  BY <1>4
<1>6. \A y \in S : MaxOf(S) >= y
  BY <1>3, <1>5, MaxExists
<1>7. SpaceOf(I, P) = MaxOf(S)
  BY <1>1 DEF SpaceOf
<1>8. p(k) \in S /\ p(k) \in Nat /\ MaxOf(S) \in Nat
  BY <1>3, <1>4, <1>5, MaxExists
<1> QED BY <1>6, <1>7, <1>8

-----------------------------------------------------------------------------
(* C03: nothing is measured earlier than by the greedy schedule. *)
THEOREM GreedyIsFastest ==
  ASSUME NEW G, G[0] = {},
         \A k \in Nat : G[k+1] = G[k] \cup Measurable(I, G[k]),
         NEW P \in Seq(SUBSET I.nodes), ValidSchedule(I, P)
  PROVE  /\ \A k \in 0 .. Len(P) : MeasuredIn(P, k) \subseteq G[k]
         /\ Complete(I, G[Len(P)])
<1>1. Len(P) \in Nat /\ DOMAIN P = 1 .. Len(P)
  OBVIOUS
<1> DEFINE Q(k) == k <= Len(P) => MeasuredIn(P, k) \subseteq G[k]
<1>2. Q(0)
  BY DEF MeasuredIn
<1>3. ASSUME NEW k \in Nat, Q(k) PROVE Q(k+1)
  <2> SUFFICES ASSUME k + 1 <= Len(P) PROVE MeasuredIn(P, k+1) \subseteq G[k+1]
    OBVIOUS
  <2>1. MeasuredIn(P, k) \subseteq G[k]
    BY <1>1, <1>3
  <2>2. k + 1 \in DOMAIN P /\ (k + 1) - 1 = k
    BY <1>1
  <2>3. P[k+1] \subseteq Measurable(I, MeasuredIn(P, k))
    BY <2>2 DEF ValidSchedule, ValidPrefix
  <2>4. \A v \in P[k+1] : v \in G[k] \/ v \in Measurable(I, G[k])
    BY <2>1, <2>3 DEF Measurable
  <2> QED BY <2>1, <2>4, OneMore
<1> HIDE DEF Q
<1>4. \A k \in Nat : Q(k)
  BY <1>2, <1>3, NatInduction, IsaM("blast")
<1>5. \A k \in 0 .. Len(P) : MeasuredIn(P, k) \subseteq G[k]
  BY <1>1, <1>4 DEF Q
<1>6. MeasuredIn(P, Len(P)) \subseteq G[Len(P)]
  BY <1>1, <1>5
<1> QED BY <1>5, <1>6 DEF ValidSchedule, Complete, MeasuredBy

-----------------------------------------------------------------------------
(* C02, C09: the nodes that are held during a step are those in memory after it and the *)
(* measured ones, which is how the code counts: it adds the measured nodes and their    *)
(* neighbours to what is in memory, and removes the measured ones afterwards.           *)
THEOREM Memory ==
  ASSUME NEW M \in SUBSET I.nodes, NEW S \in SUBSET I.nodes, M \cap S = {}
  PROVE  /\ Held(I, M, S) = InMemory(I, M) \cup (({s \in S : TRUE} \cup Neighbours(I, S)) \ M)
         /\ InMemory(I, M \cup S) = Held(I, M, S) \ S
         /\ S \subseteq Held(I, M, S)
  BY DEF Held, InMemory, Neighbours

(* What is held only depends on what has been measured, not on the steps. *)
THEOREM InMemoryIsNeighbours ==
  ASSUME NEW M \in SUBSET I.nodes
  PROVE  \A v \in I.nodes : v \in InMemory(I, M) <=> v \notin M /\ \E w \in M : v \in I.nb[w]
  BY DEF InMemory, Neighbours

-----------------------------------------------------------------------------
(* C06: the filter keeps exactly the undominated results. *)
THEOREM FilterIsPareto ==
  ASSUME NEW T \in SUBSET Nat, NEW res \in [T -> Nat]
  PROVE  {<<t, res[t]>> : t \in {t \in T : \A u \in T : u < t => res[t] < res[u]}}
           = ParetoOf({<<t, res[t]>> : t \in T})
<1> DEFINE C == {<<t, res[t]>> : t \in T}
           F == {t \in T : \A u \in T : u < t => res[t] < res[u]}
<1>1. ASSUME NEW t \in F PROVE <<t, res[t]>> \in ParetoOf(C)
  <2>1. \A u \in T : u <= t /\ res[u] <= res[t] => u = t
    OBVIOUS
  <2> QED BY <2>1 DEF ParetoOf, Dominates
<1>2. ASSUME NEW t \in T, <<t, res[t]>> \in ParetoOf(C) PROVE t \in F
  <2> SUFFICES ASSUME NEW u \in T, u < t PROVE res[t] < res[u]
    OBVIOUS
  <2>1. Dominates(<<u, res[u]>>, <<t, res[t]>>) => <<u, res[u]>> = <<t, res[t]>>
    BY <1>2 DEF ParetoOf
  <2> QED BY <2>1 DEF Dominates
<1>3. ParetoOf(C) \subseteq C
  BY DEF ParetoOf
<1> QED BY <1>1, <1>2, <1>3

(* C04, C05, C11: results which are among what has been found and dominate all of it *)
(* have the same frontier (cf. Lossless and Real of Bounds.tla).                     *)
THEOREM CoverHasTheFrontier ==
  ASSUME NEW S \in SUBSET (Nat \X Nat), NEW R \in SUBSET S,
         \A s \in S : \E r \in R : Dominates(r, s)
  PROVE  ParetoOf(R) = ParetoOf(S)
<1>1. \A a, b \in S : Dominates(a, b) /\ Dominates(b, a) => a = b
  BY DEF Dominates
<1>2. \A a, b, c \in S : Dominates(a, b) /\ Dominates(b, c) => Dominates(a, c)
  BY DEF Dominates
<1>3. \A c \in ParetoOf(S) : c \in ParetoOf(R)
  BY <1>1 DEF ParetoOf
<1>4. \A c \in ParetoOf(R) : c \in ParetoOf(S)
  BY <1>1, <1>2 DEF ParetoOf
<1> QED BY <1>3, <1>4
=============================================================================
