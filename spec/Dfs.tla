--------------------------------- MODULE Dfs ---------------------------------
(***************************************************************************)
(* The depth-first search of the code as a function on "searchers", with   *)
(* the same order of the steps, the same pruning and the same bookkeeping. *)
(* Search.tla uses one searcher, Threaded.tla one per worker.              *)
(*                                                                         *)
(* A searcher has                                                          *)
(*   stack  the open tree nodes, the last one is the current; each with    *)
(*          ms    the sequence of measurable nodes                         *)
(*          todo  the steps which have not been tried, in order            *)
(*          M     what has been measured                                   *)
(*          mem   the memory needed so far                                 *)
(*   path   the steps (sets) to the current node                           *)
(*   best   best[t]: the least space known for at most t steps             *)
(*   res    time -> <<space, path>>                                        *)
(*   steps  how many steps (forward or backward) have been made            *)
(*   done   whether the tree is exhausted                                  *)
(*   seen   the completed schedules (history)                              *)
(*   no     the rejected prefixes (history)                                *)
(***************************************************************************)
EXTENDS Mbqc, Sequences

INF == 1000

(* The subsets of 1..n with k elements, as increasing sequences, lexicographically. *)
RECURSIVE Combos(_, _, _)
Combos(lo, n, k) ==
  IF k = 0 THEN << <<>> >>
  ELSE IF lo > n THEN <<>>
  ELSE LET with == Combos(lo + 1, n, k - 1)
       IN  [j \in DOMAIN with |-> <<lo>> \o with[j]] \o Combos(lo + 1, n, k)

RECURSIVE AllCombos(_, _)
AllCombos(n, k) == IF k >= n THEN <<>> ELSE Combos(1, n, k) \o AllCombos(n, k + 1)

RECURSIVE Pick(_, _, _)   \* the elements of ms whose index is (not) in L, in order
Pick(ms, L, in) ==
  IF ms = <<>> THEN <<>>
  ELSE LET n == Len(ms)
           init == Pick(SubSeq(ms, 1, n-1), L, in)
       IN  IF (n \in L) = in THEN Append(init, ms[n]) ELSE init

(* Larger steps first: what is left out grows. *)
StepsInOrder(ms) ==
  LET cs == AllCombos(Len(ms), 0)
  IN  [j \in DOMAIN cs |-> [s    |-> Pick(ms, Range(cs[j]), FALSE),
                            rest |-> Pick(ms, Range(cs[j]), TRUE)]]

(* The nodes of a raw order in the order in which they are listed, after the first layer. *)
Flat(layers) ==
  LET flat[l \in 0 .. Len(layers)] ==
        IF l = 0 THEN <<>>
        ELSE flat[l-1] \o [j \in DOMAIN layers[l] |-> layers[l][j][1]]
  IN  flat[Len(layers)]

(* The nodes that become measurable, in the order in which the code finds them. *)
RECURSIVE Unlock(_, _, _, _)
Unlock(I, flat, M, s) ==
  IF s = <<>> THEN <<>>
  ELSE LET v == Head(s)
           now == M \cup {v}
           new == SelectSeq(flat, LAMBDA w : w \in I.ord /\ v \in I.deps[w]
                                             /\ I.deps[w] \subseteq now)
       IN  new \o Unlock(I, flat, now, Tail(s))

Node(I, flat, ms, M, mem) == [ms |-> ms, todo |-> StepsInOrder(ms), M |-> M, mem |-> mem]

RootNode(I, raw) ==
  Node(I, Flat(raw.order),
       IF raw.order = <<>> THEN <<>>
       ELSE [j \in DOMAIN raw.order[1] |-> raw.order[1][j][1]], {}, 0)

Child(I, flat, nd, st) ==
  LET S == Range(st.s) IN
  Node(I, flat, st.rest \o Unlock(I, flat, nd.M, st.s), nd.M \cup S,
       Max2(nd.mem, Peak(I, nd.M, S)))

NoBest(I) == [t \in 0 .. I.n |-> INF]

Searcher(I, nd, path, best) ==
  [stack |-> <<nd>>, path |-> path, best |-> best, res |-> <<>>, steps |-> 0,
   done |-> FALSE, seen |-> {}, no |-> {}]

Top(s) == s.stack[Len(s.stack)]
Popped(q) == SubSeq(q, 1, Len(q) - 1)

MinLength(I, nd, path) ==
  IF nd.ms = <<>> THEN Len(path) + 1
  ELSE IF Blocked(I, nd.M) # {} THEN Len(path) + 3
  ELSE Len(path) + 2

(* res is a function from times; as a sequence-free map *)
Put(res, t, x) == [u \in (DOMAIN res) \cup {t} |-> IF u = t THEN x ELSE res[u]]

Record(I, s, mem) ==
  LET len == Len(s.path) IN
  [s EXCEPT !.best = [t \in 0 .. I.n |-> IF t = len THEN mem
                                         ELSE IF t > len THEN Min2(s.best[t], mem)
                                         ELSE s.best[t]],
            !.res  = Put(s.res, len, <<mem, s.path>>),
            !.seen = s.seen \cup {<<len, mem>>}]

(* Whether the next step of the searcher is one which is decided by the accept function: *)
(* a step forward which is not pruned.                                                   *)
Next1(I, flat, s) ==
  LET nd == Top(s) IN
  IF nd.todo # <<>> THEN
     LET child == Child(I, flat, nd, Head(nd.todo)) IN
     IF child.mem >= s.best[MinLength(I, child, s.path)] THEN "prune" ELSE "ask"
  ELSE IF Len(s.stack) = 1 THEN "end" ELSE "back"

DfsStep(I, flat, s, accept) ==
  LET nd == Top(s)
      kind == Next1(I, flat, s)
  IN
  IF kind = "end" THEN [s EXCEPT !.done = TRUE]
  ELSE IF kind = "back" THEN
     LET t == IF nd.ms = <<>> THEN Record(I, s, nd.mem) ELSE s IN
     [t EXCEPT !.stack = Popped(s.stack), !.path = Popped(s.path), !.steps = s.steps + 1]
  ELSE
     LET st == Head(nd.todo)
         used == [nd EXCEPT !.todo = Tail(nd.todo)]
         stack == Append(Popped(s.stack), used)
     IN  IF kind = "ask" /\ accept
         THEN [s EXCEPT !.stack = Append(stack, Child(I, flat, nd, st)),
                        !.path = Append(s.path, Range(st.s)), !.steps = s.steps + 1]
         ELSE [s EXCEPT !.stack = stack, !.steps = s.steps + 1,
                        !.no = IF kind = "ask"
                               THEN s.no \cup {Append(s.path, Range(st.s))} ELSE s.no]

(* The final filter. *)
Filtered(I, res) ==
  {t \in DOMAIN res : \A u \in DOMAIN res : u < t => res[t][1] < res[u][1]}
Listed(I, res) == {<<t, res[t][1]>> : t \in Filtered(I, res)}
=============================================================================
