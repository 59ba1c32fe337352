----------------------------- MODULE TraceBench ------------------------------
(***************************************************************************)
(* Holds the calls and the output of the real benchmark programs against   *)
(* Bench.tla (C21).                                                        *)
(*                                                                         *)
(* data.json: runs, a list of records with                                 *)
(*   walltime, buffer  seconds for everything / not to be used             *)
(*   average    the number of problems per block                           *)
(*   blocks     a list of records with n, timeout, threads, full; the      *)
(*              densities as records with kind, num, den; rows (the calls, *)
(*              as lists of integers); the reported means and devs, in     *)
(*              thousandths (only as many as are reported)                 *)
(*   partial    not all the blocks are listed                              *)
(*   problems   a sample of the problems                                   *)
(* refused: runs with a density num/den outside [0, 1], with exit (status, *)
(*          0 or 1), calls and outputs (how many)                          *)
(***************************************************************************)
EXTENDS Json, Integers, Sequences, SequencesExt, Mbqc
VARIABLES c, p, st
Data == JsonDeserialize("data.json")
B == INSTANCE Bench WITH Middle <- 15, Size <- 0, Full <- FALSE, seen <- <<>>
vars == <<c, p, st>>
R == Data.runs[c]
K == R.blocks[p]

Call(r) ==
  [same |-> r[1] = 1, search |-> r[2] = 1, timeout |-> r[3], threads |-> r[4], bound |-> r[5],
   accept |-> r[6], seed |-> r[7], n |-> r[8], edges |-> r[9], layers |-> r[10],
   found |-> r[11], first |-> <<r[12], r[13]>>, last |-> <<r[14], r[15]>>]
Fold(b) == FoldLeft(LAMBDA s, r : B!Take(s, Call(r), b), B!Zero, b.rows)

Init == c \in DOMAIN Data.runs /\ p = 0 /\ st = B!Zero
Next == p < Len(R.blocks) /\ p' = p + 1 /\ c' = c /\ st' = Fold(R.blocks[p + 1])
Spec == Init /\ [][Next]_vars

AsAsked == p > 0 => st.ok /\ st.todo = {} /\ st.problems = R.average
(* the seeds differ *)
NewSeeds == st.used <= 1
Reported ==
  p > 0 /\ st.ok =>
    /\ Len(K.means) = (IF K.full THEN 8 ELSE 4) /\ Len(K.devs) = Len(K.means)
    /\ \A j \in DOMAIN K.means :
          /\ B!IsMean(K.means[j], st.cnt[j], st.sum[j])
          /\ B!IsDeviation(K.devs[j], st.cnt[j], st.sum[j], st.sq[j])
Chance(d) == B!Probability(d.kind, d.num, d.den, K.n)
Pairs == R.average * ((K.n * (K.n - 1)) \div 2)
AsDense ==
  p > 0 /\ st.ok /\ K.n \in 2 .. 10 =>
    /\ st.edges % 2 = 0
    /\ B!Plausible(st.edges \div 2, Pairs, Chance(K.edge))
    /\ K.n = 2 => B!Plausible(st.layered, R.average, Chance(K.correction))
(* for many nodes, no two random graphs are the same *)
Independent ==
  p > 0 /\ st.ok /\ K.n >= 16 /\ Chance(K.edge) \in 200 .. 800 => st.repeats = 0
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
(* the timeouts fit in the time *)
InTime ==
  p = Len(R.blocks) /\ ~ R.partial =>
    Total([j \in DOMAIN R.blocks |-> R.blocks[j].timeout])
      <= ((1000 * (R.walltime - R.buffer)) \div R.average) * 1000 + 1000
(* every block gets some time, larger problems not less *)
Timeouts ==
  p > 0 => /\ K.timeout > 0
           /\ p > 1 /\ K.n >= R.blocks[p-1].n => K.timeout >= R.blocks[p-1].timeout
ProblemsSane ==
  p = 0 => \A j \in DOMAIN R.problems :
             /\ WellFormed(R.problems[j])
             /\ Derive(R.problems[j]).ord = Derive(R.problems[j]).nodes
Refuses ==
  p = 0 => \A j \in DOMAIN Data.refused :
             LET r == Data.refused[j]
             IN  (r.num < 0 \/ r.num > r.den) => r.exit = 1 /\ r.calls = 0 /\ r.outputs = 0
=============================================================================
