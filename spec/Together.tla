------------------------------- MODULE Together ------------------------------
(***************************************************************************)
(* Several runs in one process (C23): they start at any time, work on      *)
(* problems and with random decisions of their own, at different speeds,   *)
(* and may be cut by a timeout or fail.  A run that is neither cut nor     *)
(* failed finds what it finds alone, whatever the other ones did or do.    *)
(***************************************************************************)
EXTENDS Small, Dfs, SequencesExt

CONSTANTS Raws,
          Coins,    \* the length of the sequences of decisions, which are then repeated
          Mutant    \* "none", or what the runs share by mistake: "bounds", "coins", "cut",
                    \* "leftover" (the results of the last run), "lock" (held by a failed run)

VARIABLES prob, coin, state, s, k, cut, lock
vars == <<prob, coin, state, s, k, cut, lock>>

Runs == {1, 2}
RawSeq == SetToSeq(Raws)
Derived == [j_ \in DOMAIN RawSeq |-> Derive(RawSeq[j_])]
Flats == [j_ \in DOMAIN RawSeq |-> Flat(RawSeq[j_].order)]
Start(j) == Searcher(Derived[j], RootNode(Derived[j], RawSeq[j]), <<>>, NoBest(Derived[j]))
Coin(c, m) == c[(m % Coins) + 1]

(* a run on its own *)
RECURSIVE Onward(_, _, _, _)
Onward(j, c, t, m) ==
  IF t.done THEN t
  ELSE LET asks == Next1(Derived[j], Flats[j], t) = "ask" IN
       Onward(j, c, DfsStep(Derived[j], Flats[j], t, asks => Coin(c, m)),
              IF asks THEN m + 1 ELSE m)
Alone(j, c) == Onward(j, c, Start(j), 0).res

Init == /\ prob \in [Runs -> DOMAIN RawSeq] /\ coin \in [Runs -> [1 .. Coins -> BOOLEAN]]
        /\ state = [r \in Runs |-> "new"]      \* "new", "runs", "done", "cut", "failed"
        /\ s = [r \in Runs |-> Start(prob[r])]
        /\ k = [r \in Runs |-> 0] /\ cut = FALSE /\ lock = 0

Other(r) == 3 - r
Begin(r) ==
  /\ state[r] = "new" /\ state' = [state EXCEPT ![r] = "runs"]
  /\ s' = IF Mutant = "leftover" /\ state[Other(r)] \in {"cut", "failed"}
          THEN [s EXCEPT ![r].res = s[Other(r)].res] ELSE s
  /\ UNCHANGED <<prob, coin, k, cut, lock>>
Works(r) == state[r] = "runs" /\ (Mutant = "lock" => lock \in {0, r})
Known(r) ==     \* (the searcher with the bounds that it looks at)
  IF Mutant = "bounds" /\ Derived[prob[1]].n = Derived[prob[2]].n
  THEN [s[r] EXCEPT !.best = [t \in DOMAIN @ |-> Min2(s[1].best[t], s[2].best[t])]]
  ELSE s[r]
Move(r) ==
  /\ Works(r) /\ ~ s[r].done
  /\ LET j == prob[r]
         t == Known(r)
         asks == Next1(Derived[j], Flats[j], t) = "ask"
         m == IF Mutant = "coins" THEN k[1] + k[2] ELSE k[r]
     IN  /\ s' = [s EXCEPT ![r] = DfsStep(Derived[j], Flats[j], t, asks => Coin(coin[r], m))]
         /\ k' = [k EXCEPT ![r] = IF asks THEN @ + 1 ELSE @]
  /\ lock' = IF Mutant = "lock" THEN 0 ELSE lock
  /\ UNCHANGED <<prob, coin, state, cut>>
Done(r) == /\ Works(r) /\ s[r].done
           /\ state' = [state EXCEPT ![r] = "done"]
           /\ UNCHANGED <<prob, coin, s, k, cut, lock>>
Cut(r) == /\ Works(r) /\ ~ s[r].done
          /\ state' = [state EXCEPT ![r] = "cut"]
          /\ cut' = TRUE /\ UNCHANGED <<prob, coin, s, k, lock>>
Infected(r) == /\ Mutant = "cut" /\ cut /\ Works(r)
               /\ state' = [state EXCEPT ![r] = "done"]
               /\ UNCHANGED <<prob, coin, s, k, cut, lock>>
Fail(r) == /\ Works(r) /\ ~ s[r].done /\ Next1(Derived[prob[r]], Flats[prob[r]], s[r]) = "ask"
           /\ state' = [state EXCEPT ![r] = "failed"]
           /\ lock' = IF Mutant = "lock" THEN r ELSE lock
           /\ UNCHANGED <<prob, coin, s, k, cut>>
Normal == \E r \in Runs : Begin(r) \/ Move(r) \/ Done(r) \/ Infected(r)
Next == Normal \/ \E r \in Runs : Cut(r) \/ Fail(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Normal)

AsAlone == \A r \in Runs : state[r] = "done" => s[r].res = Alone(prob[r], coin[r])
AllEnd == <>(\A r \in Runs : state[r] \notin {"new", "runs"})
=============================================================================
