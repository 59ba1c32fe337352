------------------------------- MODULE Logging -------------------------------
(***************************************************************************)
(* A search with and without somebody who listens to what it logs (C24).   *)
(* Tasks log when they start (the shared bounds), when they are done (what *)
(* they have found) and after they have added it to the shared results.    *)
(* What is logged is only evaluated if somebody listens: this must not     *)
(* change what is found, nor that the search ends.                         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Tasks, Moves,
          Mutant   \* "none", or a mistake: "held" (logs with the lock that logging needs),
                   \* "takes" (what is found is moved into the log), "draws" (the log asks
                   \* for a decision), "silent" (returns early if there is nothing to log),
                   \* "needed" (the work is done in what is logged)

VARIABLES on, coin, pc, k, found, shared, lock
vars == <<on, coin, pc, k, found, shared, lock>>

Init == /\ on \in BOOLEAN /\ coin \in [Tasks -> [1 .. Moves + 1 -> BOOLEAN]]
        /\ pc = [w \in Tasks |-> "start"] /\ k = [w \in Tasks |-> 1]
        /\ found = [w \in Tasks |-> {}] /\ shared = {} /\ lock = 0

Goto(w, p) == pc' = [pc EXCEPT ![w] = p]
(* (the shared data is locked for a moment in order to log it) *)
Start(w) ==
  /\ pc[w] = "start" /\ (on => lock = 0)
  /\ Goto(w, "work")
  /\ k' = IF on /\ Mutant = "draws" THEN [k EXCEPT ![w] = @ + 1] ELSE k
  /\ UNCHANGED <<on, coin, found, shared, lock>>
First(w) == IF on /\ Mutant = "draws" THEN 2 ELSE 1
Work(w) ==
  /\ pc[w] = "work"
  /\ IF k[w] < First(w) + Moves
     THEN /\ k' = [k EXCEPT ![w] = @ + 1]
          /\ found' = IF coin[w][k[w]] /\ (Mutant = "needed" => on)
                      THEN [found EXCEPT ![w] = @ \cup {<<w, k[w] - First(w)>>}] ELSE found
          /\ UNCHANGED pc
     ELSE Goto(w, "done") /\ UNCHANGED <<k, found>>
  /\ UNCHANGED <<on, coin, shared, lock>>
Done(w) ==
  /\ pc[w] = "done"
  /\ found' = IF on /\ Mutant = "takes" THEN [found EXCEPT ![w] = {}] ELSE found
  /\ Goto(w, IF Mutant = "silent" /\ ~ on THEN "end" ELSE "merge")
  /\ UNCHANGED <<on, coin, k, shared, lock>>
Merge(w) ==
  /\ pc[w] = "merge" /\ lock = 0
  /\ lock' = w /\ shared' = shared \cup found[w]
  /\ Goto(w, "merged") /\ UNCHANGED <<on, coin, k, found>>
Merged(w) ==
  /\ pc[w] = "merged"
  /\ (on /\ Mutant = "held") => lock = 0
  /\ lock' = 0 /\ Goto(w, "end")
  /\ UNCHANGED <<on, coin, k, found, shared>>
Next == \E w \in Tasks : Start(w) \/ Work(w) \/ Done(w) \/ Merge(w) \/ Merged(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

All == {<<w, j>> \in Tasks \X (0 .. Moves - 1) : coin[w][j + 1]}
End == \A w \in Tasks : pc[w] = "end"
Same == End => shared = All
AllEnd == <>End
=============================================================================
