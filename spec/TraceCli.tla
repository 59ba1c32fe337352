------------------------------ MODULE TraceCli -------------------------------
(***************************************************************************)
(* Holds command lines of the real tool, which are parsed argument by      *)
(* argument with Cli.tla, against what it did (C15).                       *)
(*                                                                         *)
(* data.json: runs, a list of records with                                 *)
(*   line   the arguments, cf. Cli.tla                                     *)
(*   fails  whether the library was made to report an error                *)
(*   exit   0, 1 (for every other status) or -1 (it hung)                  *)
(*   called how often the library's entry point was called                 *)
(*   got    what it was called with, a record with the positional          *)
(*          arguments, the flags and numbers as in Cli.tla (t in           *)
(*          milliseconds)                                                  *)
(***************************************************************************)
EXTENDS Json, Integers, Sequences, TLC
VARIABLES c, p, line, st, run
Data == JsonDeserialize("data.json")
X == INSTANCE Cli WITH MaxLen <- 6
vars == <<c, p, line, st, run>>
R == Data.runs[c]

Init == c \in DOMAIN Data.runs /\ p = 0 /\ line = <<>> /\ st = X!Nothing /\ run = "no"
Argument == /\ run = "no" /\ p < Len(R.line)
            /\ p' = p + 1
            /\ line' = Append(line, R.line[p + 1])
            /\ st' = X!Take(st, R.line[p + 1])
            /\ UNCHANGED <<c, run>>
End == /\ run = "no" /\ p = Len(R.line)
       /\ st' = X!Finish(st)
       /\ run' = IF X!Finish(st).err THEN "usage" ELSE "run"
       /\ UNCHANGED <<c, p, line>>
Next == Argument \/ End
Spec == Init /\ [][Next]_vars

Millis(d) == IF d = <<>> \/ d = <<0>> THEN d ELSE d \o <<0, 0, 0>>
Refuses == run = "usage" => R.exit = 1 /\ R.called = 0
Runs == run = "run" => R.called = 1 /\ R.exit = IF R.fails THEN 1 ELSE 0
RunsAsAsked ==
  run = "run" /\ R.called = 1 =>
    /\ R.got.pos = st.pos
    /\ R.got.s = st.s
    /\ R.got.p = st.p
    /\ R.got.t = Millis(st.t)
    /\ R.got.n = st.n
    /\ R.got.b = st.b
=============================================================================
