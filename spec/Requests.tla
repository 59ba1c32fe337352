------------------------------ MODULE Requests -------------------------------
(***************************************************************************)
(* How a path generator decides about a requested step: it goes through    *)
(* the measurable nodes and strikes each of them off the request, once;    *)
(* what is left of the request is the error.  Checked for all small lists  *)
(* and requests, with repetitions and unknown nodes, against what C08 says *)
(* about the error; this is what TraceManual.tla demands of the code.      *)
(***************************************************************************)
EXTENDS Mbqc, SequencesExt

CONSTANTS N, MaxLen

VARIABLES ms, request, rest, left, k
vars == <<ms, request, rest, left, k>>

Lists == UNION {[1 .. l -> 0 .. N] : l \in 0 .. MaxLen}

Init == /\ ms \in {s \in Lists : NoDuplicates(s) /\ N \notin Range(s)}
        /\ request \in Lists
        /\ rest = <<>>          \* the nodes that stay measurable
        /\ left = request       \* what has not been found
        /\ k = 0

Position(seq, v) == IF v \in Range(seq)
                    THEN MinOf({j \in DOMAIN seq : seq[j] = v}) ELSE 0
(* removes the element by moving the last one to its place *)
SwapRemove(seq, j) ==
  LET n == Len(seq) IN [i \in 1 .. n - 1 |-> IF i = j THEN seq[n] ELSE seq[i]]

Strike == /\ k < Len(ms)
          /\ k' = k + 1
          /\ LET v == ms[k + 1]
                 j == Position(left, v)
             IN  IF j = 0 THEN rest' = Append(rest, v) /\ UNCHANGED left
                 ELSE left' = SwapRemove(left, j) /\ UNCHANGED rest
          /\ UNCHANGED <<ms, request>>

Next == Strike
Spec == Init /\ [][Next]_vars

AtEnd == k = Len(ms)
Valid == NoDuplicates(request) /\ Range(request) \subseteq Range(ms)
Offending == {v \in Range(request) : v \notin Range(ms)
                 \/ Cardinality({j \in DOMAIN request : request[j] = v}) > 1}
DecidesRightly == AtEnd => (left = <<>> <=> Valid)
NamesOffending == AtEnd => Range(left) = Offending
KeepsTheRest == AtEnd /\ Valid => Range(rest) = Range(ms) \ Range(request) /\ NoDuplicates(rest)
=============================================================================
