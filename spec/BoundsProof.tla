---------------------------- MODULE BoundsProof ----------------------------
(* The proofs for Bounds.tla, checked by TLAPS. *)
EXTENDS Bounds, NaturalsInduction, TLAPS

LEMMA CostsNat == Costs \subseteq Nat /\ INF \in Costs /\ \A c \in Costs : c <= INF
  BY Assumptions DEF Costs
LEMMA ValueCost == Values \subseteq Costs /\ \A m \in Values : m < INF
  BY Assumptions DEF Costs

LEMMA LeastCost == \A a, b \in Costs : Least(a, b) \in Costs /\ Least(a, b) <= a /\ Least(a, b) <= b
                                        /\ (Least(a, b) = a \/ Least(a, b) = b)
  BY CostsNat DEF Least

THEOREM Typing == Spec => []TypeOK
<1>1. Init => TypeOK
  BY CostsNat DEF Init, TypeOK
<1>2. TypeOK /\ [Next]_vars => TypeOK'
  <2> SUFFICES ASSUME TypeOK, [Next]_vars PROVE TypeOK'
    OBVIOUS
  <2> USE CostsNat DEF TypeOK
  <2>1. ASSUME NEW w \in Tasks, Start(w) PROVE TypeOK'
    BY <2>1 DEF Start
  <2>2. ASSUME NEW w \in Tasks, NEW t \in Times, NEW m \in Values, Enter(w, t, m) PROVE TypeOK'
    BY <2>2 DEF Enter, Costs
  <2>3. ASSUME NEW w \in Tasks, Record(w) PROVE TypeOK'
    <3> DEFINE t == leaf[w][1]
               m == leaf[w][2]
    <3>1. leaf[w] \in Times \X Values
      BY <2>3 DEF Record
    <3>2. t \in Times /\ m \in Values /\ m \in Costs
      BY <3>1, ValueCost
    <3> HIDE DEF t, m
    <3>3. best' = [best EXCEPT ![w] = [u \in Times |->
                       IF u < t THEN best[w][u]
                       ELSE IF u = t THEN m ELSE Least(best[w][u], m)]]
      BY <2>3 DEF Record, t, m
    <3>4. res' = [res EXCEPT ![w] = [u \in Times |-> IF u = t THEN m ELSE res[w][u]]]
      BY <2>3 DEF Record, t, m
    <3>5. seen' = seen \cup {<<t, m>>} /\ leaf' = [leaf EXCEPT ![w] = None]
          /\ UNCHANGED <<shared, results, live>>
      BY <2>3 DEF Record, t, m
    <3>6. best' \in [Tasks -> [Times -> Costs]]
      BY <3>2, <3>3, LeastCost
    <3>7. res' \in [Tasks -> [Times -> Costs]]
      BY <3>2, <3>4
    <3> QED BY <3>2, <3>5, <3>6, <3>7
  <2>4. ASSUME NEW w \in Tasks, NEW t \in Times, NEW m \in Values, Prune(w, t, m) PROVE TypeOK'
    BY <2>4 DEF Prune
  <2>5. ASSUME NEW w \in Tasks, Sync(w) PROVE TypeOK'
    BY <2>5, LeastCost DEF Sync
  <2>6. ASSUME NEW w \in Tasks, End(w) PROVE TypeOK'
    BY <2>6, LeastCost DEF End
  <2>7. CASE UNCHANGED vars
    BY <2>7 DEF vars
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7 DEF Next
<1> QED BY <1>1, <1>2, PTL DEF Spec
(* What Record does, with the leaf taken apart. *)
LEMMA RecordLeaf ==
  ASSUME TypeOK, NEW w \in Tasks, Record(w)
  PROVE  \E t \in Times, m \in Values :
           /\ leaf[w] = <<t, m>>
           /\ w \in live
           /\ best' = [best EXCEPT ![w] = [u \in Times |->
                       IF u < t THEN best[w][u]
                       ELSE IF u = t THEN m ELSE Least(best[w][u], m)]]
           /\ res' = [res EXCEPT ![w] = [u \in Times |-> IF u = t THEN m ELSE res[w][u]]]
           /\ seen' = seen \cup {<<t, m>>}
           /\ leaf' = [leaf EXCEPT ![w] = None]
           /\ UNCHANGED <<shared, results, live>>
<1>1. leaf[w] \in Times \X Values
  BY DEF Record, TypeOK
<1>2. PICK t \in Times, m \in Values : leaf[w] = <<t, m>>
  BY <1>1
<1>3. leaf[w][1] = t /\ leaf[w][2] = m
  BY <1>2
<1> QED BY <1>2, <1>3 DEF Record

LEMMA NoLeaf == \A t \in Times, m \in Values : <<t, m>> # None
  BY ValueCost DEF None

THEOREM Order == Spec => []Ordered
<1>1. Init => Ordered
  BY CostsNat DEF Init, Ordered, Times
<1>2. TypeOK /\ TypeOK' /\ Ordered /\ [Next]_vars => Ordered'
  <2> SUFFICES ASSUME TypeOK, TypeOK', Ordered, [Next]_vars PROVE Ordered'
    OBVIOUS
  <2> USE CostsNat, ValueCost
  <2>1. ASSUME NEW w \in Tasks, Start(w) PROVE Ordered'
    BY <2>1 DEF Start, Ordered, TypeOK
  <2>2. ASSUME NEW w \in Tasks, NEW t \in Times, NEW m \in Values, Enter(w, t, m) PROVE Ordered'
    <3>1. m <= res[w][t]
      BY <2>2 DEF Enter, Ordered, TypeOK
    <3> QED BY <2>2, <3>1 DEF Enter, Ordered, TypeOK
  <2>3. ASSUME NEW w \in Tasks, Record(w) PROVE Ordered'
    <3>1. PICK t \in Times, m \in Values :
           /\ leaf[w] = <<t, m>>
           /\ w \in live
           /\ best' = [best EXCEPT ![w] = [u \in Times |->
                       IF u < t THEN best[w][u]
                       ELSE IF u = t THEN m ELSE Least(best[w][u], m)]]
           /\ res' = [res EXCEPT ![w] = [u \in Times |-> IF u = t THEN m ELSE res[w][u]]]
           /\ seen' = seen \cup {<<t, m>>}
           /\ leaf' = [leaf EXCEPT ![w] = None]
           /\ UNCHANGED <<shared, results, live>>
      BY <2>3, RecordLeaf
    <3>2. \A u \in Times : best'[w][u] <= res'[w][u]
      <4> TAKE u \in Times
      <4>1. best'[w][u] = IF u < t THEN best[w][u] ELSE IF u = t THEN m ELSE Least(best[w][u], m)
        BY <3>1 DEF TypeOK
      <4>2. res'[w][u] = IF u = t THEN m ELSE res[w][u]
        BY <3>1 DEF TypeOK
      <4>3. best[w][u] <= res[w][u] /\ best[w][u] \in Nat /\ res[w][u] \in Nat /\ m \in Nat
        BY <3>1 DEF Ordered, TypeOK
      <4> QED BY <4>1, <4>2, <4>3 DEF Least
    <3>3. \A v \in Tasks : v # w => best'[v] = best[v] /\ res'[v] = res[v] /\ leaf'[v] = leaf[v]
      BY <3>1 DEF TypeOK
    <3>4. leaf'[w] = None
      BY <3>1 DEF TypeOK
    <3> QED BY <3>1, <3>2, <3>3, <3>4 DEF Ordered, TypeOK
  <2>4. ASSUME NEW w \in Tasks, NEW t \in Times, NEW m \in Values, Prune(w, t, m) PROVE Ordered'
    BY <2>4 DEF Prune, Ordered, TypeOK
  <2>5. ASSUME NEW w \in Tasks, Sync(w) PROVE Ordered'
    <3>1. \A t \in Times : shared'[t] <= shared[t] /\ best'[w][t] <= best[w][t]
      BY <2>5, LeastCost DEF Sync, TypeOK
    <3>2. \A v \in Tasks : v # w => best'[v] = best[v]
      BY <2>5 DEF Sync, TypeOK
    <3> QED BY <2>5, <3>1, <3>2 DEF Sync, Ordered, TypeOK
  <2>6. ASSUME NEW w \in Tasks, End(w) PROVE Ordered'
    <3>1. \A t \in Times : shared'[t] <= results'[t]
      <4> TAKE t \in Times
      <4>1. CASE UNCHANGED <<shared, results>>
        BY <4>1 DEF Ordered
      <4>2. CASE /\ shared' = [u \in Times |-> Least(best[w][u], shared[u])]
                 /\ results' = [u \in Times |-> IF Taken(w, u) THEN res[w][u] ELSE results[u]]
        <5>1. w \in live
          BY <2>6 DEF End
        <5>2. shared[t] <= results[t] /\ best[w][t] <= res[w][t]
          BY <5>1 DEF Ordered
        <5>3. shared'[t] = Least(best[w][t], shared[t])
          BY <4>2
        <5>4. results'[t] = IF Taken(w, t) THEN res[w][t] ELSE results[t]
          BY <4>2
        <5>5. /\ best[w][t] \in Nat /\ shared[t] \in Nat /\ results[t] \in Nat
              /\ res[w][t] \in Nat
          BY DEF TypeOK
        <5> QED BY <5>2, <5>3, <5>4, <5>5 DEF Taken, Least
      <4> QED BY <2>6, <4>1, <4>2 DEF End
    <3>2. \A v \in Tasks : v # w => res'[v] = res[v] /\ leaf'[v] = leaf[v] /\ best'[v] = best[v]
      BY <2>6 DEF End, TypeOK
    <3>3. leaf'[w] = None /\ w \notin live' /\ \A t \in Times : res'[w][t] = INF
      BY <2>6 DEF End, TypeOK
    <3>4. \A v \in Tasks : v # w => (v \in live' <=> v \in live)
      BY <2>6 DEF End
    <3> QED BY <3>1, <3>2, <3>3, <3>4 DEF Ordered
  <2>7. CASE UNCHANGED vars
    BY <2>7 DEF vars, Ordered
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7 DEF Next
<1> QED BY <1>1, <1>2, Typing, PTL DEF Spec

LEMMA RecordKeeps ==
  ASSUME TypeOK, Ordered, NEW w \in Tasks, Record(w),
         NEW t \in Times, NEW x \in Nat, Backed(t, x)
  PROVE  Backed(t, x)'
<1>1. PICK u \in Times, m \in Values :
           /\ leaf[w] = <<u, m>>
           /\ res' = [res EXCEPT ![w] = [v \in Times |-> IF v = u THEN m ELSE res[w][v]]]
           /\ results' = results
  BY RecordLeaf
<1>2. m <= res[w][u]
  BY <1>1, NoLeaf DEF Ordered
<1>3. \A v \in Tasks, s \in Times : res'[v][s] <= res[v][s]
  <2> TAKE v \in Tasks, s \in Times
  <2>1. res'[v][s] = IF v = w /\ s = u THEN m ELSE res[v][s]
    BY <1>1 DEF TypeOK
  <2> QED BY <2>1, <1>2, CostsNat DEF TypeOK
<1>4. \A v \in Tasks, s \in Times : res'[v][s] \in Nat /\ res[v][s] \in Nat
  <2> TAKE v \in Tasks, s \in Times
  <2>1. res'[v][s] = IF v = w /\ s = u THEN m ELSE res[v][s]
    BY <1>1 DEF TypeOK
  <2> QED BY <2>1, CostsNat, ValueCost DEF TypeOK
<1> QED BY <1>1, <1>3, <1>4 DEF Backed

LEMMA Descent ==
  \A A : (\A x \in Nat : (\A y \in 0 .. (x-1) : y \in A) => x \in A) => \A x \in Nat : x \in A
<1> SUFFICES ASSUME NEW A, \A x \in Nat : (\A y \in 0 .. (x-1) : y \in A) => x \in A
             PROVE  \A x \in Nat : x \in A
  OBVIOUS
<1> DEFINE P(x) == x \in A
<1>1. \A x \in Nat : (\A y \in 0 .. (x-1) : P(y)) => P(x)
  OBVIOUS
<1> HIDE DEF P
<1>2. \A x \in Nat : P(x)
  BY ONLY <1>1, GeneralNatInduction, IsaM("blast")
<1> QED BY <1>2 DEF P

(* The heart: when a task hands over its results, those that are not taken are worse *)
(* than something else, which may itself be a result of this task with less memory.  *)
LEMMA EndKeeps ==
  ASSUME TypeOK, Ordered, BackedBounds, NEW w \in Tasks, End(w)
  PROVE  \A x \in Nat : x < INF => \A t \in Times : Backed(t, x) => Backed(t, x)'
<1> DEFINE P(x) == x < INF => \A t \in Times : Backed(t, x) => Backed(t, x)'
<1>0. /\ w \in live
      /\ \A v \in Tasks : v # w => res'[v] = res[v]
  BY DEF End, TypeOK
<1>1. \A x \in Nat : (\A y \in 0 .. (x-1) : P(y)) => P(x)
  <2> SUFFICES ASSUME NEW x \in Nat, \A y \in 0 .. (x-1) : P(y), x < INF,
                      NEW t \in Times, Backed(t, x)
               PROVE  Backed(t, x)'
    OBVIOUS
  <2>1. PICK u \in Times : u <= t /\ (results[u] <= x \/ \E v \in Tasks : res[v][u] <= x)
    BY DEF Backed
  <2>2. ASSUME results'[u] <= x PROVE Backed(t, x)'
    BY <2>1, <2>2 DEF Backed
  <2>3. \A s \in Times : results'[s] <= results[s]
    <3> TAKE s \in Times
    <3>1. results[s] \in Nat /\ res[w][s] \in Nat /\ best[w][s] \in Nat /\ shared[s] \in Nat
      BY CostsNat DEF TypeOK
    <3>2. shared[s] <= results[s]
      BY DEF Ordered
    <3>3. CASE results' = results
      BY <3>1, <3>3
    <3>4. CASE results' = [i \in Times |-> IF Taken(w, i) THEN res[w][i] ELSE results[i]]
      BY <3>1, <3>2, <3>4 DEF Taken
    <3> QED BY <3>3, <3>4 DEF End
  <2>4. CASE results[u] <= x
    <3>1. results[u] \in Nat /\ results'[u] \in Costs
      BY CostsNat, LeastCost DEF TypeOK, End
    <3> QED BY <2>2, <2>3, <2>4, <3>1, CostsNat
  <2>5. ASSUME NEW v \in Tasks, v # w, res[v][u] <= x PROVE Backed(t, x)'
    BY <1>0, <2>1, <2>5 DEF Backed
  <2>6. CASE res[w][u] <= x
    <3>1. /\ results[u] \in Nat /\ res[w][u] \in Nat /\ best[w][u] \in Nat
          /\ shared[u] \in Nat
      BY CostsNat DEF TypeOK
    <3>2. res[w][u] # INF /\ ~ (\A s \in Times : res[w][s] = INF)
      BY <2>6, <3>1, CostsNat
    <3>3. results' = [i \in Times |-> IF Taken(w, i) THEN res[w][i] ELSE results[i]]
      BY <3>2 DEF End
    <3>4. CASE Taken(w, u)
      <4>1. results'[u] = res[w][u]
        BY <3>3, <3>4
      <4> QED BY <2>2, <2>6, <4>1
    <3>5. ASSUME NEW z \in Nat, z < res[w][u], Backed(u, z) PROVE Backed(t, x)'
      <4>1. z < INF /\ z \in 0 .. (x-1)
        BY <2>6, <3>1, <3>5, CostsNat
      <4>2. Backed(u, z)'
        BY <3>5, <4>1
      <4>3. PICK i \in Times : i <= u /\ (results'[i] <= z \/ \E v \in Tasks : res'[v][i] <= z)
        BY <4>2 DEF Backed
      <4>4. i <= t
        BY <2>1, <4>3 DEF Times
      <4>5. results' \in [Times -> Costs] /\ res' \in [Tasks -> [Times -> Costs]]
        BY LeastCost, CostsNat, <3>3 DEF TypeOK, End
      <4>6. results'[i] <= x \/ \E v \in Tasks : res'[v][i] <= x
        BY <4>1, <4>3, <4>5, CostsNat
      <4> QED BY <4>4, <4>6 DEF Backed
    <3>6. CASE shared[u] < best[w][u]
      <4>1. best[w][u] <= res[w][u]
        BY <1>0 DEF Ordered
      <4>2. shared[u] < res[w][u] /\ shared[u] < INF
        BY <2>6, <3>1, <3>6, <4>1, CostsNat
      <4>3. Backed(u, shared[u])
        BY <4>2 DEF BackedBounds
      <4> QED BY <3>1, <3>5, <4>2, <4>3
    <3>7. CASE best[w][u] < res[w][u]
      <4>1. best[w][u] < INF
        BY <2>6, <3>1, <3>7, CostsNat
      <4>2. Backed(u, best[w][u])
        BY <1>0, <4>1 DEF BackedBounds
      <4> QED BY <3>1, <3>5, <3>7, <4>2
    <3> QED BY <3>1, <3>2, <3>4, <3>6, <3>7 DEF Taken
  <2> QED BY <2>1, <2>4, <2>5, <2>6
<1> DEFINE A == {x \in Nat : P(x)}
<1>2. \A x \in Nat : (\A y \in 0 .. (x-1) : y \in A) => x \in A
  <2> SUFFICES ASSUME NEW x \in Nat, \A y \in 0 .. (x-1) : y \in A PROVE x \in A
    OBVIOUS
  <2>1. \A y \in 0 .. (x-1) : P(y)
    OBVIOUS
  <2>2. P(x)
    BY <1>1, <2>1
  <2> QED BY <2>2
<1> HIDE DEF A
<1>3. \A x \in Nat : x \in A
  BY <1>2, Descent
<1>4. \A x \in Nat : P(x)
  BY <1>3 DEF A
<1> QED BY <1>4

THEOREM Backing == Spec => []BackedBounds
<1>1. Init => BackedBounds
  BY CostsNat DEF Init, BackedBounds
<1>2. TypeOK /\ TypeOK' /\ Ordered /\ Ordered' /\ BackedBounds /\ [Next]_vars => BackedBounds'
  <2> SUFFICES ASSUME TypeOK, TypeOK', Ordered, Ordered', BackedBounds, [Next]_vars
               PROVE  BackedBounds'
    OBVIOUS
  <2>0. \A p \in seen : p[1] \in Times /\ p[2] \in Nat /\ p[2] < INF
    BY CostsNat, ValueCost DEF TypeOK
  <2>00. \A t \in Times, w \in Tasks : shared[t] \in Nat /\ best[w][t] \in Nat
    BY CostsNat DEF TypeOK
  <2>a. ASSUME UNCHANGED <<results, res>>, NEW t \in Times, NEW x, Backed(t, x)
        PROVE Backed(t, x)'
    BY <2>a DEF Backed
  <2>1. ASSUME NEW w \in Tasks, Start(w) PROVE BackedBounds'
    <3>1. \A v \in Tasks : best'[v] = IF v = w THEN shared ELSE best[v]
      BY <2>1 DEF Start, TypeOK
    <3> QED BY <2>1, <2>a, <2>0, <3>1 DEF Start, BackedBounds
  <2>2. ASSUME NEW w \in Tasks, NEW t \in Times, NEW m \in Values, Enter(w, t, m)
        PROVE BackedBounds'
    BY <2>2, <2>a, <2>0 DEF Enter, BackedBounds
  <2>3. ASSUME NEW w \in Tasks, Record(w) PROVE BackedBounds'
    <3>1. PICK t \in Times, m \in Values :
           /\ leaf[w] = <<t, m>>
           /\ w \in live
           /\ best' = [best EXCEPT ![w] = [u \in Times |->
                       IF u < t THEN best[w][u]
                       ELSE IF u = t THEN m ELSE Least(best[w][u], m)]]
           /\ res' = [res EXCEPT ![w] = [u \in Times |-> IF u = t THEN m ELSE res[w][u]]]
           /\ seen' = seen \cup {<<t, m>>}
           /\ leaf' = [leaf EXCEPT ![w] = None]
           /\ UNCHANGED <<shared, results, live>>
      BY <2>3, RecordLeaf
    <3>2. m \in Nat
      BY CostsNat, ValueCost
    <3>3. res'[w][t] = m
      BY <3>1 DEF TypeOK
    <3>4. \A u \in Times : t <= u => Backed(u, m)'
      BY <3>2, <3>3 DEF Backed
    <3>5. \A u \in Times, x \in Nat : Backed(u, x) => Backed(u, x)'
      BY <2>3, RecordKeeps
    <3>6. \A u \in Times : shared'[u] < INF => Backed(u, shared[u])'
      BY <2>00, <3>1, <3>5 DEF BackedBounds
    <3>7. \A v \in Tasks, u \in Times :
            v \in live' /\ best'[v][u] < INF => \E y \in Nat : y = best'[v][u] /\ Backed(u, y)'
      <4> SUFFICES ASSUME NEW v \in Tasks, NEW u \in Times, v \in live', best'[v][u] < INF
                   PROVE  \E y \in Nat : y = best'[v][u] /\ Backed(u, y)'
        OBVIOUS
      <4>1. CASE best'[v][u] = best[v][u]
        BY <2>00, <3>1, <3>5, <4>1 DEF BackedBounds
      <4>2. CASE best'[v][u] = m /\ t <= u
        BY <3>2, <3>4, <4>2
      <4>3. t \in Int /\ u \in Int
        BY DEF Times
      <4>4. v # w => best'[v][u] = best[v][u]
        BY <3>1 DEF TypeOK
      <4>5. v = w => best'[v][u] = (IF u < t THEN best[w][u]
                       ELSE IF u = t THEN m ELSE Least(best[w][u], m))
        BY <3>1 DEF TypeOK
      <4> QED BY <4>1, <4>2, <4>3, <4>4, <4>5 DEF Least
    <3>8. \A p \in seen' : \E y \in Nat, u \in Times : p[1] = u /\ p[2] = y /\ Backed(u, y)'
      BY <2>0, <3>1, <3>2, <3>4, <3>5 DEF BackedBounds, Times
    <3> QED BY <3>1, <3>6, <3>7, <3>8 DEF BackedBounds, Backed
  <2>4. ASSUME NEW w \in Tasks, NEW t \in Times, NEW m \in Values, Prune(w, t, m)
        PROVE BackedBounds'
    <3>1. PICK u \in Times : u <= t /\ best[w][u] <= m
      BY <2>4 DEF Prune
    <3>2. best[w][u] < INF /\ m \in Nat
      BY <2>00, <3>1, CostsNat, ValueCost
    <3>3. Backed(u, best[w][u])
      BY <2>4, <3>2 DEF Prune, BackedBounds
    <3>4. Backed(t, m)
      <4>1. PICK i \in Times : i <= u /\ (results[i] <= best[w][u]
                                          \/ \E v \in Tasks : res[v][i] <= best[w][u])
        BY <3>3 DEF Backed
      <4>2. i <= t
        BY <3>1, <4>1 DEF Times
      <4>3. results[i] <= m \/ \E v \in Tasks : res[v][i] <= m
        BY <2>00, <3>1, <3>2, <4>1, CostsNat DEF TypeOK
      <4> QED BY <4>2, <4>3 DEF Backed
    <3> QED BY <2>4, <2>a, <2>0, <3>4 DEF Prune, BackedBounds
  <2>5. ASSUME NEW w \in Tasks, Sync(w) PROVE BackedBounds'
    <3>1. \A t \in Times : shared'[t] = Least(best[w][t], shared[t])
      BY <2>5 DEF Sync
    <3>2. \A v \in Tasks, t \in Times : best'[v][t] = IF v = w THEN shared'[t] ELSE best[v][t]
      BY <2>5 DEF Sync, TypeOK
    <3>3. \A t \in Times : shared'[t] = shared[t] \/ shared'[t] = best[w][t]
      BY <3>1 DEF Least
    <3>4. w \in live /\ UNCHANGED <<results, res, live, seen>>
      BY <2>5 DEF Sync
    <3>5. \A t \in Times : shared'[t] < INF => Backed(t, shared'[t])
      BY <3>3, <3>4 DEF BackedBounds
    <3>6. \A v \in Tasks, t \in Times : v \in live' /\ best'[v][t] < INF => Backed(t, best'[v][t])
      BY <3>2, <3>4, <3>5 DEF BackedBounds
    <3> QED BY <2>0, <3>4, <3>5, <3>6 DEF BackedBounds, Backed
  <2>6. ASSUME NEW w \in Tasks, End(w) PROVE BackedBounds'
    <3>1. \A x \in Nat : x < INF => \A t \in Times : Backed(t, x) => Backed(t, x)'
      BY <2>6, EndKeeps
    <3>2. UNCHANGED <<best, seen>> /\ live' \subseteq live /\ w \in live
      BY <2>6 DEF End
    <3>3. \A t \in Times : shared'[t] = shared[t] \/ shared'[t] = best[w][t]
      BY <2>6 DEF End, Least
    <3>4. \A t \in Times : shared'[t] < INF => \E y \in Nat : y = shared'[t] /\ Backed(t, y)'
      BY <2>00, <3>1, <3>2, <3>3 DEF BackedBounds
    <3>5. \A v \in Tasks, t \in Times :
            v \in live' /\ best'[v][t] < INF => \E y \in Nat : y = best'[v][t] /\ Backed(t, y)'
      BY <2>00, <3>1, <3>2 DEF BackedBounds
    <3>6. \A p \in seen' : \E y \in Nat, u \in Times : p[1] = u /\ p[2] = y /\ Backed(u, y)'
      BY <2>0, <3>1, <3>2 DEF BackedBounds
    <3> QED BY <3>4, <3>5, <3>6 DEF BackedBounds, Backed
  <2>7. CASE UNCHANGED vars
    BY <2>7 DEF vars, BackedBounds, Backed
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7 DEF Next
<1> QED BY <1>1, <1>2, Typing, Order, PTL DEF Spec

THEOREM C05_C11 == Spec => []Lossless
<1>1. TypeOK /\ Ordered /\ BackedBounds => Lossless
  <2> SUFFICES ASSUME TypeOK, Ordered, BackedBounds, live = {}, NEW p \in seen
               PROVE  \E u \in Times : u <= p[1] /\ results[u] <= p[2]
    BY DEF Lossless
  <2>1. p[1] \in Times /\ p[2] \in Nat /\ p[2] < INF
    BY CostsNat, ValueCost DEF TypeOK
  <2>2. PICK u \in Times : u <= p[1] /\ (results[u] <= p[2] \/ \E v \in Tasks : res[v][u] <= p[2])
    BY DEF BackedBounds, Backed
  <2>3. \A v \in Tasks : res[v][u] = INF
    BY DEF Ordered
  <2> QED BY <2>1, <2>2, <2>3, CostsNat
<1> QED BY <1>1, Typing, Order, Backing, PTL

THEOREM Reality == Spec => []Real
<1>1. Init => Real
  BY DEF Init, Real
<1>2. TypeOK /\ TypeOK' /\ Real /\ [Next]_vars => Real'
  <2> SUFFICES ASSUME TypeOK, TypeOK', Real, [Next]_vars PROVE Real'
    OBVIOUS
  <2>1. ASSUME NEW w \in Tasks, Start(w) PROVE Real'
    BY <2>1 DEF Start, Real
  <2>2. ASSUME NEW w \in Tasks, NEW t \in Times, NEW m \in Values, Enter(w, t, m) PROVE Real'
    BY <2>2 DEF Enter, Real
  <2>3. ASSUME NEW w \in Tasks, Record(w) PROVE Real'
    <3>1. PICK t \in Times, m \in Values :
           /\ res' = [res EXCEPT ![w] = [u \in Times |-> IF u = t THEN m ELSE res[w][u]]]
           /\ seen' = seen \cup {<<t, m>>}
           /\ results' = results
      BY <2>3, RecordLeaf
    <3>2. \A v \in Tasks, u \in Times : res'[v][u] = IF v = w /\ u = t THEN m ELSE res[v][u]
      BY <3>1 DEF TypeOK
    <3> QED BY <3>1, <3>2 DEF Real
  <2>4. ASSUME NEW w \in Tasks, NEW t \in Times, NEW m \in Values, Prune(w, t, m) PROVE Real'
    BY <2>4 DEF Prune, Real
  <2>5. ASSUME NEW w \in Tasks, Sync(w) PROVE Real'
    BY <2>5 DEF Sync, Real
  <2>6. ASSUME NEW w \in Tasks, End(w) PROVE Real'
    <3>1. \A v \in Tasks, u \in Times : res'[v][u] = IF v = w THEN INF ELSE res[v][u]
      BY <2>6 DEF End, TypeOK
    <3>2. seen' = seen
      BY <2>6 DEF End
    <3>3. \A u \in Times : results'[u] = results[u] \/ results'[u] = res[w][u]
      BY <2>6 DEF End
    <3> QED BY <3>1, <3>2, <3>3 DEF Real
  <2>7. CASE UNCHANGED vars
    BY <2>7 DEF vars, Real
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6, <2>7 DEF Next
<1> QED BY <1>1, <1>2, Typing, PTL DEF Spec
=============================================================================
