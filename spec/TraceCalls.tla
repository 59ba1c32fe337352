----------------------------- MODULE TraceCalls ------------------------------
(***************************************************************************)
(* What the accept function is told (C13), judged by the calls alone: TLC  *)
(* explores all reachable states of the instance, and every call has to    *)
(* describe one of the moves between them.  (TraceSearch.tla knows more    *)
(* about the search and decides more; this module needs no log of it.)     *)
(*                                                                         *)
(* data.json: insts, and runs, a list of records with                      *)
(*   ins                                                                   *)
(*   alone  whether the search is single-threaded                          *)
(*   none   whether the function always answers 0                          *)
(*   least  the least space of the returned schedules, -1 if there is none *)
(*   calls  the arguments of the calls in their order, -1 stands for MAX   *)
(***************************************************************************)
EXTENDS Mbqc, Json

Data == JsonDeserialize("data.json")
Insts == [k_ \in DOMAIN Data.insts |-> Derive(Data.insts[k_])]
Runs == Data.runs
MAX == 1000000

(* The reachable states: what has been measured and the memory it needed. *)
Reached ==
  [k_ \in DOMAIN Insts |->
     LET I_ == Insts[k_]
         after_[l_ \in 0 .. Cardinality(I_.ord)] ==
           IF l_ = 0 THEN {<<{}, 0>>}
           ELSE UNION {{<<x_[1] \cup S_, Max2(x_[2], Peak(I_, x_[1], S_))>> :
                          S_ \in Steps(I_, x_[1])} : x_ \in after_[l_ - 1]}
     IN  UNION {after_[l_] : l_ \in 0 .. Cardinality(I_.ord)}]

Told(J, M, mem, N, rem) == <<mem, Current(J, M), Current(J, N), rem, J.n>>

(* Both numbers of remaining nodes: the documented one and that of the known finding. *)
Moves ==
  [k_ \in DOMAIN Insts |->
     LET J_ == Insts[k_] IN
     UNION {UNION {LET N_ == x_[1] \cup S_ IN
                   {Told(J_, x_[1], x_[2], N_, Cardinality(J_.ord \ N_)),
                    Told(J_, x_[1], x_[2], N_, Cardinality(Blocked(J_, N_)))} :
                   S_ \in Steps(J_, x_[1])} : x_ \in Reached[k_]}]
Spaces ==
  [k_ \in DOMAIN Insts |->
     {MAX} \cup {x_[2] : x_ \in {y_ \in Reached[k_] : Complete(Insts[k_], y_[1])}}]

VARIABLES c, p, least, err
vars == <<c, p, least, err>>
R == Runs[c]
I == Insts[R.ins]
Value(a) == IF a = -1 THEN MAX ELSE a

Init == c \in DOMAIN Runs /\ p = 0 /\ least = MAX /\ err = ""

Fault(checks) == IF \A j \in DOMAIN checks : checks[j][1] THEN ""
                 ELSE checks[MinOf({j \in DOMAIN checks : ~ checks[j][1]})][2]

Call ==
  /\ err = "" /\ p < Len(R.calls)
  /\ LET a == R.calls[p + 1] IN
     /\ err' = Fault(TLCEval(<<
          <<SubSeq(a, 3, 7) \in Moves[R.ins], "no such move">>,
          <<Value(a[2]) \in Spaces[R.ins], "least space">>,
          <<Value(a[1]) \in Spaces[R.ins], "least space for the length">>,
          <<Value(a[1]) >= Value(a[2]), "the overall least space is not the least">>,
          <<Value(a[2]) >= Value(R.least), "found less than what is returned">>,
          <<R.alone => Value(a[2]) <= least, "forgot what was found">> >>))
     /\ least' = Value(a[2])
  /\ p' = p + 1
  /\ UNCHANGED c
Spec == Init /\ [][Call]_vars

TrueArguments == err = ""

(* If everything is rejected, exactly the first steps are asked about. *)
Count(x, seq) == Cardinality({j \in DOMAIN seq : SubSeq(seq[j], 3, 7) = x})
First(J, rem(_, _)) ==
  [S \in Steps(J, {}) |-> Told(J, {}, 0, S, rem(J, S))]
Left(J, N) == Cardinality(J.ord \ N)
Open(J, N) == Cardinality(Blocked(J, N))
Exactly(f) ==
  /\ Len(R.calls) = Cardinality(DOMAIN f)
  /\ \A x \in Range(f) : Count(x, R.calls) = Cardinality({S \in DOMAIN f : f[S] = x})
AsksOnce ==
  (p = Len(R.calls) /\ R.none /\ R.alone) =>
     /\ Exactly(First(I, Left)) \/ Exactly(First(I, Open))
     /\ \A j \in DOMAIN R.calls : R.calls[j][1] = -1 /\ R.calls[j][2] = -1
ASSUME Sane == \A j \in DOMAIN Data.insts : WellFormed(Data.insts[j])
=============================================================================
