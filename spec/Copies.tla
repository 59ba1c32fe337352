-------------------------------- MODULE Copies -------------------------------
(***************************************************************************)
(* Two single-threaded searches of the same problem with the same sequence *)
(* of random decisions, running at different speeds (C19): they find the   *)
(* same, and any difference of the results comes from a different          *)
(* decision.  The decisions are those of the accept function; the k-th     *)
(* question of a search is answered by the k-th element of its sequence.   *)
(***************************************************************************)
EXTENDS Small, Dfs, SequencesExt

CONSTANTS Raws,
          Coins,    \* the length of the sequences, which are then repeated
          Shared    \* TRUE: a mistake, both searches draw from one generator

VARIABLES ix, coin, a, b, ka, kb
vars == <<ix, coin, a, b, ka, kb>>

RawSeq == SetToSeq(Raws)
Derived == [j_ \in DOMAIN RawSeq |-> Derive(RawSeq[j_])]
Flats == [j_ \in DOMAIN RawSeq |-> Flat(RawSeq[j_].order)]
I == Derived[ix]
flat == Flats[ix]
Start(j) == Searcher(Derived[j], RootNode(Derived[j], RawSeq[j]), <<>>, NoBest(Derived[j]))

Init == /\ ix \in DOMAIN RawSeq
        /\ coin \in [1 .. Coins -> BOOLEAN]
        /\ a = Start(ix) /\ b = Start(ix)
        /\ ka = 0 /\ kb = 0

Coin(k) == coin[(k % Coins) + 1]
Asks(s) == Next1(I, flat, s) = "ask"
Left == /\ ~ a.done
        /\ a' = DfsStep(I, flat, a, Asks(a) => Coin(IF Shared THEN ka + kb ELSE ka))
        /\ ka' = IF Asks(a) THEN ka + 1 ELSE ka
        /\ UNCHANGED <<ix, coin, b, kb>>
Right == /\ ~ b.done
         /\ b' = DfsStep(I, flat, b, Asks(b) => Coin(IF Shared THEN ka + kb ELSE kb))
         /\ kb' = IF Asks(b) THEN kb + 1 ELSE kb
         /\ UNCHANGED <<ix, coin, a, ka>>
Next == Left \/ Right
Spec == Init /\ [][Next]_vars

SamePaths == a.done /\ b.done => a.res = b.res /\ Listed(I, a.res) = Listed(I, b.res)
SameHistory == a.steps = b.steps /\ a.done = b.done => a = b
=============================================================================
