-------------------------------- MODULE Bench --------------------------------
(***************************************************************************)
(* The benchmark programs (C21).  A block is the work for one size (or     *)
(* correction density): a number of problems, for each of which the        *)
(* library is called two or three times, in any order:                     *)
(*   1. the time-optimal path, single-threaded                             *)
(*   2. a search with the built-in accept function and a timeout           *)
(*   3. (if full) an exhaustive search                                     *)
(* always for the same graph and order.  The reported columns, mean and    *)
(* deviation each, are                                                     *)
(*   1, 2  time and space of the path of 1.                                *)
(*   3, 4  of the last path of 2.      (if there is one)                   *)
(*   5, 6  of the first path of 3.     (if there is one)                   *)
(*   7, 8  of the last path of 3.      (if there is one)                   *)
(*                                                                         *)
(* A call is a record with search, timeout (in microseconds, -1: none),    *)
(* threads, bound (-1: none), accept (0: none, 1: built-in, 2: other),     *)
(* seed (0: none, 1: used before, 2: new), same (the problem is that of    *)
(* the previous call), n (nodes), edges (length of all neighbour lists),   *)
(* layers (of the order), found (number of paths), first and last (time    *)
(* and space of the first and last path).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Roles(full) == IF full THEN {1, 2, 3} ELSE {1, 2}
Role(call) == IF ~ call.search THEN 1 ELSE IF call.accept # 0 THEN 2 ELSE 3

(* what the call for the role must look like; b describes the block *)
Fits(role, call, b) ==
  /\ call.n = b.n
  /\ call.bound = -1
  /\ CASE role = 1 -> call.timeout = -1 /\ call.threads = 1 /\ call.accept = 0
       [] role = 2 -> call.timeout = b.timeout /\ call.threads = b.threads /\ call.accept = 1
       [] OTHER -> call.timeout = -1 /\ call.threads = b.threads

(* the values that a call contributes to the columns: <<column, value>> *)
Values(role, call) ==
  IF call.found = 0 THEN <<>>
  ELSE CASE role = 1 -> <<<<1, call.first[1]>>, <<2, call.first[2]>>>>
         [] role = 2 -> <<<<3, call.last[1]>>, <<4, call.last[2]>>>>
         [] OTHER -> <<<<5, call.first[1]>>, <<6, call.first[2]>>,
                       <<7, call.last[1]>>, <<8, call.last[2]>>>>

(* The values are counted relative to Middle (the numbers of TLC are small). *)
CONSTANT Middle
(* todo: the roles that are missing for the current problem *)
Zero == [todo |-> {}, ok |-> TRUE, calls |-> 0, problems |-> 0, edges |-> 0, layered |-> 0,
         repeats |-> 0, used |-> 0, cnt |-> <<0, 0, 0, 0, 0, 0, 0, 0>>,
         sum |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, sq |-> <<0, 0, 0, 0, 0, 0, 0, 0>>]
Take(st, call, b) ==
  LET role == Role(call)
      first == st.todo = {}
      vs == Values(role, call)
      of(c) == {j \in DOMAIN vs : vs[j][1] = c}
      v(c) == vs[CHOOSE j \in of(c) : TRUE][2] - Middle
  IN  IF ~ st.ok THEN st
      ELSE IF ~ /\ Fits(role, call, b)
                /\ role \in (IF first THEN Roles(b.full) ELSE st.todo)
                /\ first \/ call.same
           THEN [st EXCEPT !.ok = FALSE]
      ELSE [st EXCEPT
             !.todo = (IF first THEN Roles(b.full) ELSE st.todo) \ {role},
             !.calls = st.calls + 1,
             !.problems = IF first THEN st.problems + 1 ELSE st.problems,
             !.edges = IF first THEN st.edges + call.edges ELSE st.edges,
             !.layered = IF first /\ call.layers = 2 THEN st.layered + 1 ELSE st.layered,
             !.repeats = IF first /\ call.same THEN st.repeats + 1 ELSE st.repeats,
             !.used = IF call.seed = 1 THEN st.used + 1 ELSE st.used,
             !.cnt = [c \in 1 .. 8 |-> IF of(c) = {} THEN st.cnt[c] ELSE st.cnt[c] + 1],
             !.sum = [c \in 1 .. 8 |-> IF of(c) = {} THEN st.sum[c] ELSE st.sum[c] + v(c)],
             !.sq = [c \in 1 .. 8 |-> IF of(c) = {} THEN st.sq[c] ELSE st.sq[c] + v(c) * v(c)]]

(***************************************************************************)
(* A reported mean and deviation, in thousandths, of cnt values with the   *)
(* given sum and sum of squares, up to rounding.                           *)
(***************************************************************************)
Abs(x) == IF x < 0 THEN -x ELSE x
IsMean(mean, cnt, sum) == Abs((mean - 1000 * Middle) * cnt - 1000 * sum) <= cnt
(* the variance is sq/cnt - (sum/cnt)^2; deviations are below 45 *)
Thousandths(x, cnt) == (x \div cnt) * 1000 + ((x % cnt) * 1000) \div cnt
Variance(cnt, sum, sq) ==
  LET m == Thousandths(Abs(sum), cnt)       \* (Abs(sum) <= 16 * cnt)
  IN  Thousandths(sq, cnt) - (m * m) \div 1000
IsDeviation(dev, cnt, sum, sq) ==
  LET v == Variance(cnt, sum, sq)
      s == (dev * dev) \div 1000
  IN  Abs(v - s) <= 40 + dev \div 100

(***************************************************************************)
(* The probability, in thousandths and rounded down, that two nodes of n   *)
(* are connected (or that a measurement needs a correction of a later one) *)
(* for a density given by its kind and factor (a fraction).                *)
(***************************************************************************)
Root(x) == CHOOSE r \in 0 .. 1000 : r * r <= x /\ (r + 1) * (r + 1) > x
Probability(kind, num, den, n) ==
  CASE kind = "constant" -> (1000 * num) \div den
    [] kind = "reziprocal_linear" -> (1000 * num) \div (den * (n - 1))
    [] kind = "reziprocal_square_root" ->
         Root((((1000 * num) \div den) * ((1000 * num) \div den)) \div (n - 1))

(* k of N with probability between p/1000 and (p+1)/1000, allowing 6.6 standard deviations *)
Plausible(k, N, p) ==
  LET lo == (N \div 1000) * p + ((N % 1000) * p) \div 1000
      hi == (N \div 1000) * (p + 1) + ((N % 1000) * (p + 1)) \div 1000 + 1
      d == IF k < lo THEN lo - k ELSE IF k > hi THEN k - hi ELSE 0
  IN  d <= 30000 /\ d * d <= 11 * N

-----------------------------------------------------------------------------
(* The machine, for all short sequences of calls. *)
CONSTANTS Size, Full
VARIABLES seen, st
vars == <<seen, st>>
Block == [n |-> 2, timeout |-> 5, threads |-> 3, full |-> Full]
Base == [search |-> FALSE, timeout |-> -1, threads |-> 1, bound |-> -1, accept |-> 0,
         seed |-> 0, same |-> FALSE, n |-> 2, edges |-> 0, layers |-> 1, found |-> 1,
         first |-> <<0, 1>>, last |-> <<0, 1>>]
Calls ==
  {[Base EXCEPT !.edges = e, !.first = <<t, 1>>, !.last = <<t, 1>>, !.same = (e = 2)] :
     e \in {0, 2}, t \in 0 .. 2}
  \cup {[Base EXCEPT !.search = TRUE, !.timeout = t, !.threads = 3, !.accept = a, !.seed = 2 * a,
                     !.same = s, !.found = f, !.first = <<x, 1>>, !.last = <<y, 0>>] :
          t \in {-1, 5}, a \in {0, 1}, s \in BOOLEAN, f \in 0 .. 2, x \in {1, 2}, y \in {0, 2}}
Init == seen = <<>> /\ st = Zero
Next == /\ Len(seen) < Size
        /\ st.ok
        /\ \E call \in Calls : seen' = Append(seen, call) /\ st' = Take(st, call, Block)
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
(* the calls of a role, from the sequence alone *)
Many == Cardinality(Roles(Full))
OfRole(r) == {j \in DOMAIN seen : IF r = 1 THEN ~ seen[j].search
                                  ELSE seen[j].search /\ (r = 2) = (seen[j].timeout = 5)}
Answered(r) == {j \in OfRole(r) : seen[j].found > 0}
Sum(S, Op(_)) == Total([k \in DOMAIN seen |-> IF k \in S THEN Op(k) ELSE 0])
Columns ==
  st.ok =>
    /\ st.cnt[1] = Cardinality(OfRole(1)) /\ st.cnt[2] = st.cnt[1]
    /\ st.cnt[3] = Cardinality(Answered(2)) /\ st.cnt[4] = st.cnt[3]
    /\ st.cnt[7] = Cardinality(Answered(3)) /\ st.cnt[5] = st.cnt[7]
    /\ LET t1(k) == seen[k].first[1] - Middle
           t3(k) == seen[k].last[1] - Middle
       IN  /\ st.sum[1] = Sum(OfRole(1), t1)
           /\ st.sum[3] = Sum(Answered(2), t3)
           /\ st.sum[5] = Sum(Answered(3), t1)
           /\ st.sum[7] = Sum(Answered(3), t3)
    /\ ~ Full => st.cnt[5] = 0 /\ st.cnt[7] = 0
    /\ st.problems = (Len(seen) + Many - 1) \div Many
(* each problem is asked once in each way *)
Asked ==
  st.ok => \A g \in 0 .. Len(seen) \div Many - 1 :
             /\ \A r \in Roles(Full) : \E k \in 1 .. Many : g * Many + k \in OfRole(r)
             /\ \A k \in 2 .. Many : seen[g * Many + k].same
(* the numbers are the usual mean and deviation *)
Statistics ==
  st.cnt[1] > 0 =>
    LET c == st.cnt[1]
        mean == 1000 * Middle + Thousandths(IF st.sum[1] < 0 THEN 0 ELSE st.sum[1], c)
    IN  /\ st.sum[1] >= 0 => IsMean(mean, c, st.sum[1])
        /\ st.sum[1] >= 0 => ~ IsMean(mean + 3, c, st.sum[1])
        /\ Variance(c, st.sum[1], st.sq[1]) >= 0 - 5
        /\ (\A j \in OfRole(1) : seen[j].first = seen[1].first) => IsDeviation(0, c, st.sum[1], st.sq[1])
=============================================================================
