-------------------------------- MODULE Accept -------------------------------
(***************************************************************************)
(* The provided accept functions (C18):                                    *)
(*    0                                       if headroom < cutoff         *)
(*    n^lin * exp(-n^tot * r^rem / (headroom^diff * m^meas))   otherwise   *)
(* with headroom the least space found minus the larger of the memory now  *)
(* and the maximum so far, n nodes in total, r remaining and m = n - r     *)
(* measured ones.  As there are no real numbers here, only the exponent is *)
(* described, as the fraction Num / Den.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
(* the least space found is -1 if there is none *)
Infinite(a) == a.min = -1
Headroom(a) == a.min - Max2(a.cur, a.last)
(* the cutoff is given in halves *)
Cut(f, a) == ~ Infinite(a) /\ 2 * Headroom(a) < f.cut2
Positive(a) == Infinite(a) \/ Headroom(a) > 0
(* With a negative exponent, a factor changes the side; b^0 = 1, even for b = 0. *)
Power(b, e) == IF e <= 0 THEN 1 ELSE b ^ e
Num(f, a) == Power(a.n, f.tot) * Power(a.r, f.rem)
             * Power(Headroom(a), -f.diff) * Power(a.n - a.r, -f.meas)
Den(f, a) == Power(a.n, -f.tot) * Power(a.r, -f.rem)
             * Power(Headroom(a), f.diff) * Power(a.n - a.r, f.meas)
PositiveExponents(f) == f.tot >= 0 /\ f.rem > 0 /\ f.diff > 0 /\ f.meas > 0
Builtin == [cut2 |-> 0, lin |-> 2, tot |-> 1, rem |-> 1, diff |-> 3, meas |-> 1]

-----------------------------------------------------------------------------
(* What follows from the formula, for small arguments. *)
CONSTANTS MaxN, MaxExp
VARIABLES f, a
Init == /\ f \in [cut2 : {-1, 0, 1, 4}, lin : {0}, tot : 0 .. MaxExp, rem : 1 .. MaxExp,
                  diff : 1 .. MaxExp, meas : 1 .. MaxExp]
        /\ a \in [min : 0 .. MaxN, cur : 0 .. 2, last : 0 .. 2, r : 0 .. MaxN, n : 1 .. MaxN]
        /\ a.r < a.n
Next == FALSE /\ UNCHANGED <<f, a>>
Spec == Init /\ [][Next]_<<f, a>>
Ok(x) == ~ Cut(f, x) /\ Positive(x)
(* v(x) >= v(y) *)
AtLeast(x, y) == Num(f, x) * Den(f, y) <= Num(f, y) * Den(f, x)
LessRemaining ==
  Ok(a) => \A k \in 0 .. a.r : AtLeast([a EXCEPT !.r = k], a)
MoreHeadroom ==
  Ok(a) => \A k \in 1 .. 2 : AtLeast([a EXCEPT !.min = a.min + k], a)
FullWhenDone == Ok(a) /\ a.r = 0 => Num(f, a) = 0
(* no headroom, but nodes remain: the exponent is infinite *)
NoHeadroom == ~ Cut(f, a) /\ Headroom(a) = 0 /\ a.r > 0 => Den(f, a) = 0 /\ Num(f, a) > 0
=============================================================================
