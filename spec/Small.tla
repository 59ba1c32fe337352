-------------------------------- MODULE Small --------------------------------
(***************************************************************************)
(* All well-formed instances with N nodes, up to the order of the lists    *)
(* and to a permutation of the nodes (a node only depends on smaller       *)
(* ones).                                                                  *)
(***************************************************************************)
EXTENDS Mbqc

Pairs(N) == {p \in (0 .. N-1) \X (0 .. N-1) : p[1] < p[2]}

(* the elements of a set of numbers in increasing order *)
Sorted(S) ==
  [j \in 1 .. Cardinality(S) |-> CHOOSE m \in S : Cardinality({w \in S : w < m}) = j - 1]

(* depth in a dependency relation D, a set of pairs <<dependency, node>> *)
Depths(D, nodes) ==
  LET depth[v \in nodes] ==
        LET d == {p[1] : p \in {q \in D : q[2] = v}} IN
        IF d = {} THEN 1 ELSE 1 + MaxOf({depth[w] : w \in d})
  IN  depth

Raw(N, E, D) ==
  LET nodes == 0 .. N-1
      depth == Depths(D, nodes)
      layer(l) == Sorted({v \in nodes : depth[v] = l})
      top == MaxOf({depth[v] : v \in nodes})
  IN  [adj   |-> [j \in 1 .. N |->
                    Sorted({w \in nodes : <<j-1, w>> \in E \/ <<w, j-1>> \in E})],
       order |-> [l \in 1 .. top |->
                    [j \in DOMAIN layer(l) |->
                       <<layer(l)[j], Sorted({p[1] : p \in {q \in D : q[2] = layer(l)[j]}})>>]]]

RawsOf(N) == {Raw(N, E, D) : E \in SUBSET Pairs(N), D \in SUBSET Pairs(N)}
RawsUpTo(N) == UNION {RawsOf(m) : m \in 1 .. N}
=============================================================================
