----------------------------- MODULE TraceBuild -----------------------------
(***************************************************************************)
(* Judges graph buffers which the real code built from edge lists (C17).   *)
(* The specification adds one edge after the other, as a set of two        *)
(* relabelled nodes; the buffer is compared at the end.                    *)
(*                                                                         *)
(* data.json: builds, a list of records with n (number of nodes), edges,   *)
(*   map, check, out ("ok" or "bad"), adj (the buffer), nodes (the         *)
(*   neighbours which a graph on that buffer reports), states, cur, max    *)
(*   (what that graph shows), sparse (whether the adjacency was given)     *)
(***************************************************************************)
EXTENDS Relabel, Json

Data == JsonDeserialize("data.json")
Builds == Data.builds

VARIABLES c, p, edges
vars == <<c, p, edges>>
B == Builds[c]

Init == c \in DOMAIN Builds /\ p = 0 /\ edges = {}

Add == /\ p < Len(B.edges)
       /\ LET a == Label(B.map, B.edges[p + 1][1])
              b == Label(B.map, B.edges[p + 1][2])
          IN  edges' = IF a = b THEN edges ELSE edges \cup {{a, b}}
       /\ p' = p + 1
       /\ UNCHANGED c
Spec == Init /\ [][Add]_vars

AtEnd == p = Len(B.edges) /\ B.out = "ok"
Nodes == 0 .. B.n - 1

Ends == B.out = "ok"
RightSize == AtEnd => Len(B.adj) = B.n
RightNeighbours ==
  AtEnd => \A a \in Nodes : Range(B.adj[a + 1]) = {b \in Nodes : {a, b} \in edges}
NoRepetition == AtEnd => \A a \in Nodes : NoDuplicates(B.adj[a + 1])
GraphUsesBuffer == AtEnd => /\ B.nodes = B.adj
                            /\ \A a \in Nodes : B.states[a + 1] = 0
                            /\ B.cur = 0 /\ B.max = 0
=============================================================================
