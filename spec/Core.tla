-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* States and schedules of an instance I in derived form, cf. Mbqc.tla.    *)
(* (A module of its own for the sake of the proofs, see Theory.tla.)       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Range(seq) == {seq[j_] : j_ \in DOMAIN seq}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

-----------------------------------------------------------------------------
(* States are sets M of measured nodes. *)

Measurable(I, M) == {v \in I.ord \ M : I.deps[v] \subseteq M}
Blocked(I, M)    == (I.ord \ M) \ Measurable(I, M)
Complete(I, M)   == I.ord \subseteq M

(* A step is a non-empty set of measurable nodes. *)
Steps(I, M) == (SUBSET Measurable(I, M)) \ {{}}

Neighbours(I, S) == UNION {I.nb[v] : v \in S}

(* A node is in memory iff it is not measured but a neighbour of it is. *)
InMemory(I, M) == Neighbours(I, M) \ M
Current(I, M)  == Cardinality(InMemory(I, M))

(* What has to be in memory during the step which measures S after M. *)
Held(I, M, S) == (InMemory(I, M) \cup S \cup Neighbours(I, S)) \ M
Peak(I, M, S) == Cardinality(Held(I, M, S))

NodeState(I, M, v) == IF v \in M THEN 2 ELSE IF v \in InMemory(I, M) THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Schedules: sequences of sets. *)

MeasuredIn(P, k) == UNION {P[j] : j \in 1 .. k}
MeasuredBy(P) == MeasuredIn(P, Len(P))

ValidPrefix(I, P) ==
  \A k \in DOMAIN P : P[k] # {} /\ P[k] \subseteq Measurable(I, MeasuredIn(P, k-1))
ValidSchedule(I, P) == ValidPrefix(I, P) /\ Complete(I, MeasuredBy(P))

SpaceOf(I, P) ==
  IF P = <<>> THEN 0
  ELSE MaxOf({Peak(I, MeasuredIn(P, k-1), P[k]) : k \in DOMAIN P})

Dominates(a, b) == a[1] <= b[1] /\ a[2] <= b[2]
ParetoOf(C) == {c \in C : \A d \in C : Dominates(d, c) => d = c}
=============================================================================
