----------------------------- MODULE TraceAccept -----------------------------
(***************************************************************************)
(* Holds values of the provided accept functions against Accept.tla (C18). *)
(*                                                                         *)
(* data.json: groups, a list of records with                               *)
(*   f        the parameters                                               *)
(*   entries  a list of records: the arguments min, cur, last, r, n; and   *)
(*     v      "zero", "pos" or "odd" (negative, infinite, not a number)    *)
(*     rank   the place of the value among all values of the group and of  *)
(*            n^lin, equal up to rounding                                  *)
(*     full   the rank of n^lin                                            *)
(*     log    -1000 ln(value / n^lin), rounded; -1 if out of range         *)
(*   twins    the values (v and rank) of other functions that have to be   *)
(*            equal: a list of lists like entries                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

Data == JsonDeserialize("data.json")
VARIABLES c, p
X == INSTANCE Accept WITH MaxN <- 0, MaxExp <- 0, f <- c, a <- p
G == Data.groups[c]
E == G.entries[p]
Init == c \in DOMAIN Data.groups /\ p \in DOMAIN Data.groups[c].entries
Next == FALSE /\ UNCHANGED <<c, p>>
Spec == Init /\ [][Next]_<<c, p>>

Cuts == X!Cut(G.f, E) => E.v = "zero"
Applies == ~ X!Cut(G.f, E) /\ X!Positive(E)
Within == Applies => E.v # "odd" /\ (E.v = "pos" => E.rank <= E.full)
Abs(x) == IF x < 0 THEN -x ELSE x
Formula ==
  Applies =>
    LET \* (if the headroom is infinite, it decides, if it matters)
        h   == IF X!Infinite(E) THEN [E EXCEPT !.min = X!Max2(E.cur, E.last) + 1] ELSE E
        num == X!Num(G.f, h)
        den == X!Den(G.f, h)
    IN  IF den = 0 THEN E.v = "zero"
        ELSE IF num = 0 THEN E.v = "pos" /\ E.rank = E.full
        ELSE IF X!Infinite(E) /\ G.f.diff > 0 THEN E.v = "pos" /\ E.rank = E.full
        ELSE IF X!Infinite(E) /\ G.f.diff < 0 THEN E.v = "zero"
        ELSE /\ E.v = "zero" => num \div den >= 700
             /\ E.log >= 0 => /\ E.log <= 2000000000 \div den
                              /\ Abs(E.log * den - 1000 * num) <= num + den
             /\ E.v = "pos" /\ E.log = -1 => num \div den >= 600
NoHeadroom ==
  G.f.diff > 0 /\ ~ X!Cut(G.f, E) /\ ~ X!Infinite(E) /\ X!Headroom(E) = 0 /\ E.r > 0
     => E.v = "zero"
Same(x, y, keys) == \A k \in keys : x[k] = y[k]
Val(x) == IF x.v = "zero" THEN 0 ELSE x.rank
Monotone ==
  X!PositiveExponents(G.f) /\ Applies =>
    \A q \in DOMAIN G.entries :
      LET D == G.entries[q] IN
      (~ X!Cut(G.f, D) /\ X!Positive(D) /\ D.n = E.n) =>
        /\ (Same(D, E, {"min", "cur", "last"}) /\ D.r <= E.r) => Val(D) >= Val(E)
        /\ (D.r = E.r /\ (X!Infinite(D)
              \/ (~ X!Infinite(E) /\ X!Headroom(D) >= X!Headroom(E)))) => Val(D) >= Val(E)
Determined == X!Cut(G.f, E) \/ X!Positive(E) \/ (X!Headroom(E) = 0 /\ E.r > 0)
Twins == \A k \in DOMAIN G.twins :
           Determined => Same(G.twins[k][p], E, {"v", "rank"})
=============================================================================
