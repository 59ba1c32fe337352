-------------------------------- MODULE Sweep --------------------------------
(***************************************************************************)
(* The iteration through the tree of schedules on its own: forward and     *)
(* backward moves, and skipping the node just entered.  The order of the   *)
(* steps is the one of the code (Dfs.tla).                                 *)
(***************************************************************************)
EXTENDS Small, Dfs, SequencesExt

CONSTANTS Raws, MaxSkips

VARIABLES ix, stack, path, entered, leaves, skipped, fresh, over
vars == <<ix, stack, path, entered, leaves, skipped, fresh, over>>

(* The instances are numbered, so that TLC derives each of them only once. *)
RawSeq == SetToSeq(Raws)
Derived == [j \in DOMAIN RawSeq |-> Derive(RawSeq[j])]
raw == RawSeq[ix]
I == Derived[ix]
Flats == [j \in DOMAIN RawSeq |-> Flat(RawSeq[j].order)]
flat == Flats[ix]
Cur == stack[Len(stack)]

Init == /\ ix \in DOMAIN RawSeq
        /\ stack = <<RootNode(Derived[ix], RawSeq[ix])>>
        /\ path = <<>>
        /\ entered = <<>>     \* the paths of all nodes that were entered, in order
        /\ leaves = <<>>      \* the reported schedules, with their memory
        /\ skipped = {}
        /\ fresh = FALSE      \* whether the current node has just been entered
        /\ over = FALSE

Forward ==
  /\ ~ over /\ Cur.todo # <<>>
  /\ LET st == Head(Cur.todo) IN
     /\ stack' = Append(Append(Popped(stack), [Cur EXCEPT !.todo = Tail(Cur.todo)]),
                        Child(I, flat, Cur, st))
     /\ path' = Append(path, Range(st.s))
     /\ entered' = Append(entered, path')
  /\ fresh' = TRUE
  /\ UNCHANGED <<ix, leaves, skipped, over>>

Skip ==
  /\ fresh
  /\ Cardinality(skipped) < MaxSkips
  /\ skipped' = skipped \cup {path}
  /\ stack' = Popped(stack)
  /\ path' = Popped(path)
  /\ fresh' = FALSE
  /\ UNCHANGED <<ix, entered, leaves, over>>

Backward ==
  /\ ~ over /\ Cur.todo = <<>> /\ Len(stack) > 1
  /\ leaves' = IF Cur.ms = <<>> THEN Append(leaves, <<path, Cur.mem>>) ELSE leaves
  /\ stack' = Popped(stack)
  /\ path' = Popped(path)
  /\ fresh' = FALSE
  /\ UNCHANGED <<ix, entered, skipped, over>>

End == /\ ~ over /\ Cur.todo = <<>> /\ Len(stack) = 1
       /\ over' = TRUE
       /\ UNCHANGED <<ix, stack, path, entered, leaves, skipped, fresh>>

Next == Forward \/ Skip \/ Backward \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NestedPath == Len(stack) = Len(path) + 1
EachOnce == \A a, b \in DOMAIN entered : entered[a] = entered[b] => a = b
OnlySchedules == \A j \in DOMAIN leaves :
  ValidSchedule(I, leaves[j][1]) /\ SpaceOf(I, leaves[j][1]) = leaves[j][2]
AllSchedules == [j \in DOMAIN RawSeq |-> Schedules(Derived[j])]
StartsWith(P, Q) == Len(Q) <= Len(P) /\ SubSeq(P, 1, Len(Q)) = Q
AllButSkipped ==
  over => {leaves[j][1] : j \in DOMAIN leaves} =
          {P \in AllSchedules[ix] : \A Q \in skipped : ~ StartsWith(P, Q)}
Terminates == <>over
=============================================================================
