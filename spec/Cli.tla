--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* What the arguments of the command line tool mean (C15).  A command line *)
(* is a sequence of arguments, records with                                *)
(*   k  "pos": a positional argument; "s", "p": a flag; "t", "n", "b": an  *)
(*      option with a value; "x": something that does not exist            *)
(*   d  the value of an option as sequence of digits; <<>>: it is not a    *)
(*      number; <<-1>>: there is no value                                  *)
(*   v  the positional argument                                            *)
(* Parse is a machine that consumes it argument by argument.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

U32 == <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
U16 == <<6, 5, 5, 3, 5>>

(* numbers without leading zeros *)
Less(a, b) ==
  \E j \in DOMAIN a : a[j] < b[j] /\ \A k \in 1 .. j - 1 : a[k] = b[k]
Fits(d, limit) ==
  /\ d # <<>> /\ d[1] # -1
  /\ \/ Len(d) < Len(limit)
     \/ Len(d) = Len(limit) /\ (d = limit \/ Less(d, limit))
Limit(k) == IF k = "n" THEN U16 ELSE U32

Nothing == [pos |-> <<>>, s |-> FALSE, p |-> FALSE, t |-> <<>>, n |-> <<1>>, b |-> <<>>,
            err |-> FALSE]

Take(st, arg) ==
  IF st.err THEN st
  ELSE CASE arg.k = "pos" -> [st EXCEPT !.pos = Append(st.pos, arg.v),
                                        !.err = Len(st.pos) = 6]
         [] arg.k = "s" -> [st EXCEPT !.s = TRUE]
         [] arg.k = "p" -> [st EXCEPT !.p = TRUE]
         [] arg.k = "t" -> [st EXCEPT !.t = arg.d, !.err = ~ Fits(arg.d, Limit("t"))]
         [] arg.k = "n" -> [st EXCEPT !.n = arg.d, !.err = ~ Fits(arg.d, Limit("n"))]
         [] arg.k = "b" -> [st EXCEPT !.b = arg.d, !.err = ~ Fits(arg.d, Limit("b"))]
         [] OTHER -> [st EXCEPT !.err = TRUE]

Finish(st) == IF Len(st.pos) < 6 THEN [st EXCEPT !.err = TRUE] ELSE st

-----------------------------------------------------------------------------
(* The machine, for all short command lines. *)
CONSTANTS MaxLen
VARIABLES line, st, run
vars == <<line, st, run>>

Values == {<<>>, <<-1>>, <<0>>, <<7>>, <<1, 2>>, U16, <<6, 5, 5, 3, 6>>, U32, U32 \o <<0>>,
           <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>}
Args == [k : {"pos"}, v : {"f"}, d : {<<>>}] \cup [k : {"s", "p", "x"}, v : {""}, d : {<<>>}]
        \cup [k : {"t", "n", "b"}, v : {""}, d : Values]
(* each option at most once *)
Allowed(arg) == arg.k = "pos" \/ \A j \in DOMAIN line : line[j].k # arg.k
Used == Cardinality({j \in DOMAIN line : line[j].k # "pos"})

Init == line = <<>> /\ st = Nothing /\ run = "no"
Read(arg) == /\ run = "no" /\ Allowed(arg)
             /\ arg.k # "pos" => Used < MaxLen
             /\ Len(line) < 7 + MaxLen
             /\ (arg.k = "pos") => Len(st.pos) < 7
             /\ line' = Append(line, arg)
             /\ st' = Take(st, arg)
             /\ UNCHANGED run
End == /\ run = "no"
       /\ st' = Finish(st)
       /\ run' = IF Finish(st).err THEN "usage" ELSE "run"
       /\ UNCHANGED line
Next == (\E arg \in Args : Read(arg)) \/ End
Spec == Init /\ [][Next]_vars

Kinds == {line[j].k : j \in DOMAIN line}
Given(k) == CHOOSE j \in DOMAIN line : line[j].k = k
(* The order of the arguments does not matter, and nothing is invented. *)
Faithful ==
  run = "run" =>
    /\ st.s = ("s" \in Kinds) /\ st.p = ("p" \in Kinds) /\ "x" \notin Kinds
    /\ st.t = IF "t" \in Kinds THEN line[Given("t")].d ELSE <<>>
    /\ st.b = IF "b" \in Kinds THEN line[Given("b")].d ELSE <<>>
    /\ st.n = IF "n" \in Kinds THEN line[Given("n")].d ELSE <<1>>
    /\ Cardinality({j \in DOMAIN line : line[j].k = "pos"}) = 6
    /\ \A j \in DOMAIN line : line[j].d # <<-1>>
Refused ==
  run = "usage" =>
    \/ "x" \in Kinds
    \/ Cardinality({j \in DOMAIN line : line[j].k = "pos"}) # 6
    \/ \E j \in DOMAIN line : line[j].k \in {"t", "n", "b"} /\ ~ Fits(line[j].d, Limit(line[j].k))
=============================================================================
