-------------------------------- MODULE Mbqc --------------------------------
(***************************************************************************)
(* The meaning of measurement schedules: what may be measured when, and    *)
(* what it costs.  Everything else in this directory refers to this        *)
(* module; it is purely declarative and shares no algorithm with the code  *)
(* (the code keeps dependency counters and per-node states and updates     *)
(* them step by step, cf. Operational.tla).                                *)
(*                                                                         *)
(* An instance, as given to the program, is a record with                  *)
(*   adj    a sequence with the sequence of neighbours of each node; the   *)
(*          nodes are the numbers 0 .. Len(adj)-1                          *)
(*   order  a sequence of layers; a layer is a sequence of pairs           *)
(*          <<node, sequence of the nodes it depends on>>                  *)
(***************************************************************************)
EXTENDS Core, TLC

(* (The names with an underscore, here and in the constant definitions of the other     *)
(* modules, keep TLC from mistaking them for the variables of a module that extends this *)
(* one; it would then evaluate these constants anew in every state.)                     *)

(***************************************************************************)
(* The derived form of an instance: nb, the set of neighbours of each      *)
(* node; ord, the set of nodes which have to be measured; deps, the nodes  *)
(* each of them depends on.                                                *)
(***************************************************************************)
Derive(given) ==
  LET n_ == Len(given.adj)
      pairs_ == UNION {Range(given.order[l_]) : l_ \in DOMAIN given.order}
  IN  TLCEval([n    |-> n_,
               nodes|-> 0 .. n_-1,
               nb   |-> [v_ \in 0 .. n_-1 |-> Range(given.adj[v_+1])],
               ord  |-> {p_[1] : p_ \in pairs_},
               deps |-> [v_ \in {p_[1] : p_ \in pairs_} |->
                          UNION {Range(p_[2]) : p_ \in {q_ \in pairs_ : q_[1] = v_}}]])

(***************************************************************************)
(* Which inputs are well-formed: a simple graph, and an order which lists  *)
(* each node once, in the first layer iff it has no dependencies, and      *)
(* otherwise in the layer after the latest of its dependencies.            *)
(***************************************************************************)
NoDuplicates(s) == Cardinality(Range(s)) = Len(s)

WellFormed(given) ==
  LET n == Len(given.adj)
      I == Derive(given)
      layer == TLCEval([l \in DOMAIN given.order |->
                          {given.order[l][j][1] : j \in DOMAIN given.order[l]}])
      of == TLCEval([v \in I.ord |-> CHOOSE l \in DOMAIN layer : v \in layer[l]])
  IN  /\ \A v \in I.nodes :
            /\ NoDuplicates(given.adj[v+1])
            /\ \A w \in I.nb[v] : w \in I.nodes /\ w # v /\ v \in I.nb[w]
      /\ I.ord \subseteq I.nodes
      /\ \A l \in DOMAIN given.order :
            /\ given.order[l] # <<>>
            /\ Cardinality(layer[l]) = Len(given.order[l])
            /\ \A j \in DOMAIN given.order[l] :
                 LET v == given.order[l][j][1]
                     d == given.order[l][j][2]
                 IN  /\ of[v] = l
                     /\ NoDuplicates(d)
                     /\ l = 1 <=> d = <<>>
                     /\ \A k \in DOMAIN d : d[k] \in I.ord /\ of[d[k]] < l
                     /\ l > 1 => \E k \in DOMAIN d : of[d[k]] = l - 1

-----------------------------------------------------------------------------
(* All schedules; only for small instances. *)
(* (A recursive function and not a RECURSIVE operator, because TLC does not cache     *)
(* constants which are defined by the latter.)                                        *)
Schedules(I) ==
  LET completions[M \in SUBSET I.ord] ==
        IF M = I.ord THEN {<<>>}
        ELSE UNION {{<<S>> \o P : P \in completions[M \cup S]} : S \in Steps(I, M)}
  IN  completions[{}]

Costs(I) == {<<Len(P), SpaceOf(I, P)>> : P \in Schedules(I)}
Frontier(I) == ParetoOf(Costs(I))

(* The number of nodes on the longest chain of dependencies that ends in a node. *)
RECURSIVE DepthOf(_, _)
DepthOf(I, v) == IF I.deps[v] = {} THEN 1
                 ELSE 1 + MaxOf({DepthOf(I, d) : d \in I.deps[v]})

(* The number of steps that are at least needed to measure the rest; this is the  *)
(* number of greedy steps.                                                        *)
RECURSIVE StepsNeeded(_, _)
StepsNeeded(I, M) == IF Complete(I, M) THEN 0
                     ELSE 1 + StepsNeeded(I, M \cup Measurable(I, M))
=============================================================================
