----------------------------- MODULE TraceSweep -----------------------------
(***************************************************************************)
(* Replays the moves of sweeps of the real code through the tree of        *)
(* schedules (C07).  The specification keeps the stack of open tree nodes, *)
(* each with the set of the steps that have been entered, and judges every *)
(* move; a move that does not fit is recorded in err.                      *)
(*                                                                         *)
(* data.json: insts, and sweeps, a list of records with ins, out, space    *)
(* (whether memory is observed), partial (whether the recording stopped     *)
(* before the end), init, and events, a list of records with               *)
(*   k      "F": forward; "S": the node just entered was skipped; "B":     *)
(*          backward; "E": end of the (sub)sweep                           *)
(*   s      the step (F)                                                   *)
(*   depth  the length of the path after the move                          *)
(*   base   the depth of the root of the sweep (1: split off subtree)      *)
(*   leaf   what a backward move reports about the node it leaves: -1 if   *)
(*          it is no complete schedule, its memory otherwise (-2 if the    *)
(*          memory is not observed)                                        *)
(*   ok     whether the skip succeeded; skip, again: whether a skip or a   *)
(*          further move succeeded after the end                           *)
(*   st     [meas, un, cur, max] of the node which is current after that   *)
(***************************************************************************)
EXTENDS Mbqc, Json

Data == JsonDeserialize("data.json")
Insts == [k_ \in DOMAIN Data.insts |-> Derive(Data.insts[k_])]
Sweeps == Data.sweeps

VARIABLES c, p, stack, err
vars == <<c, p, stack, err>>

Sw == Sweeps[c]
I == Insts[Sw.ins]
Ev == Sw.events[p + 1]
(* An open tree node; ms is what can be measured, tried the steps that were entered. *)
Node(M, mem, J) == LET ms == Measurable(J, M)
                   IN  [M |-> M, mem |-> mem, ms |-> ms, cur |-> Current(J, M), tried |-> {},
                        last |-> Cardinality(ms)]

Top == stack[Len(stack)]
Depth == Len(stack) - 1

(* The observed state of a tree node. *)
Observed(st, nd) ==
  /\ Cardinality(Range(st.meas)) = Len(st.meas)
  /\ Range(st.meas) = nd.ms
  /\ st.un = (Blocked(I, nd.M) # {})
  /\ Sw.space => /\ st.cur = nd.cur
                 /\ st.max = nd.mem

(* only non-empty subsets of ms are ever put into tried *)
Exhausted(nd) == Cardinality(nd.tried) = 2 ^ Cardinality(nd.ms) - 1
LeafOf(nd) == IF ~ Complete(I, nd.M) THEN -1 ELSE IF Sw.space THEN nd.mem ELSE -2

Pop == SubSeq(stack, 1, Len(stack) - 1)

RECURSIVE First(_)
First(checks) == IF checks = <<>> THEN ""
                 ELSE IF Head(checks)[1] THEN First(TLCEval(Tail(checks))) ELSE Head(checks)[2]

Init == /\ c \in DOMAIN Sweeps
        /\ p = 0
        /\ stack = <<Node({}, 0, Insts[Sweeps[c].ins])>>
        /\ err = ""

Active == Sw.out = "ok" /\ err = "" /\ p < Len(Sw.events)

Forward ==
  /\ Active /\ Ev.k = "F" /\ stack # <<>>
  /\ LET S == TLCEval(Range(Ev.s))
         possible == S # {} /\ Cardinality(S) = Len(Ev.s) /\ S \subseteq Top.ms
         new == TLCEval(IF possible
                        THEN Node(TLCEval(Top.M \cup S),
                                  TLCEval(Max2(Top.mem, Peak(I, Top.M, S))), I)
                        ELSE Top)
         e == First(TLCEval(<< <<possible, "impossible step">>,
                       <<S \notin Top.tried, "repeated step">>,
                       <<Cardinality(S) <= Top.last, "smaller step first">>,
                       <<Ev.depth = Depth + 1, "depth">>,
                       <<possible => Observed(Ev.st, new), "state">> >>))
     IN  /\ err' = e
         /\ stack' = Append(Append(Pop, [Top EXCEPT !.tried = Top.tried \cup {S},
                                                   !.last = Cardinality(S)]), new)

Skip ==
  /\ Active /\ Ev.k = "S" /\ stack # <<>>
  /\ err' = IF Depth <= Ev.base THEN "skip at the root"
            ELSE First(TLCEval(<< <<Ev.ok, "skip refused">>,
                          <<Ev.depth = Depth - 1, "depth">>,
                          <<Observed(Ev.st, stack[Len(stack) - 1]), "state after skip">> >>))
  /\ stack' = Pop

Backward ==
  /\ Active /\ Ev.k = "B" /\ stack # <<>>
  /\ err' = IF Depth <= Ev.base THEN "backward at the root"
            ELSE First(TLCEval(<< <<Exhausted(Top), "left too early">>,
                          <<Ev.leaf = LeafOf(Top), "leaf">>,
                          <<Ev.depth = Depth - 1, "depth">>,
                          <<Observed(Ev.st, stack[Len(stack) - 1]), "state after back">> >>))
  /\ stack' = Pop

End ==
  /\ Active /\ Ev.k = "E" /\ stack # <<>>
  /\ err' = First(TLCEval(<< <<Depth = Ev.base, "ended inside">>,
                     <<Exhausted(Top), "ended too early">>,
                     <<Ev.leaf = LeafOf(Top), "leaf">>,
                     <<~ Ev.again, "moves after the end">>,
                     <<~ Ev.skip, "skips after the end">> >>))
  /\ stack' = Pop

Extra == /\ Active /\ stack = <<>>
         /\ err' = "moves after the end"
         /\ UNCHANGED stack

Next == (Forward \/ Skip \/ Backward \/ End \/ Extra) /\ p' = p + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Ends == Sw.out = "ok"
AllMovesFit == err = ""
InitialState == p = 0 /\ Sw.out = "ok" => Observed(Sw.init, Top)
Everything == Sw.out = "ok" /\ ~ Sw.partial /\ err = "" /\ p = Len(Sw.events) => stack = <<>>
ASSUME Sane == \A j \in DOMAIN Data.insts : WellFormed(Data.insts[j])
=============================================================================
