----------------------------- MODULE TraceChance -----------------------------
(***************************************************************************)
(* Judges how often searches with an accept function whose value is a/b,   *)
(* 0 < a < b, find the only schedule of an instance which is a chain (C12).*)
(* In the specification every step of the chain which the function is      *)
(* asked about is taken with that probability, independently; part is the  *)
(* probability, as a fraction of b^asked, to be still on the way.          *)
(*                                                                         *)
(* data.json: samples, a list of records with                              *)
(*   asked  the number of steps of the chain the function is asked about   *)
(*   ways   1, or 2: there are two such chains, independent of each other, *)
(*          and one of them suffices                                       *)
(*   a, b   the value; runs, hits: the number of runs, and of those that   *)
(*          returned the schedule; sigmas: the tolerated deviation         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

Data == JsonDeserialize("data.json")
Samples == Data.samples

VARIABLES c, k, part, whole
vars == <<c, k, part, whole>>
S == Samples[c]

Init == c \in DOMAIN Samples /\ k = 0 /\ part = 1 /\ whole = 1
Step == /\ k < S.asked
        /\ k' = k + 1
        /\ part' = part * S.a
        /\ whole' = whole * S.b
        /\ UNCHANGED c
Spec == Init /\ [][Step]_vars

Abs(a, b) == IF a >= b THEN a - b ELSE b - a
Hit   == IF S.ways = 1 THEN part ELSE whole * whole - (whole - part) * (whole - part)
Whole == IF S.ways = 1 THEN whole ELSE whole * whole
(* the variance of the number of hits, rounded up *)
Variance == (((S.runs * Hit) \div Whole) * (Whole - Hit)) \div Whole + S.runs \div Whole + 2
(* |hits - runs * Hit / Whole| <= sigmas * sqrt(variance), up to rounding *)
Deviation == Abs(S.hits, (S.runs * Hit) \div Whole)
AsProbable ==
    k = S.asked => /\ Deviation < 40000      \* TLC has 32 bits
                   /\ Deviation * Deviation <= S.sigmas * S.sigmas * Variance
=============================================================================
