-------------------------------- MODULE Iface --------------------------------
(***************************************************************************)
(* File-based runs (C14): two inputs are read and parsed, the search runs, *)
(* its result is written.  A scenario says in which state the files and    *)
(* the format names are; the machine goes through the effects, in any      *)
(* order that respects the data flow, and Outcome predicts where it ends.  *)
(* TraceIface.tla holds the real code against Outcome.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Formats == {"serde_json", "bincode", "unknown"}
(* ok; there is none; cannot be parsed; the other format; a directory *)
Inputs == {"ok", "missing", "damaged", "other", "dir"}
(* not there; nor is its directory; there; a directory; below a file; a device without  *)
(* space; the input file with the graph                                                 *)
Outputs == {"fresh", "nested", "exists", "dir", "blocked", "full", "same"}
Scenarios == [gfmt : Formats, graph : Inputs, ofmt : Formats, order : Inputs,
              pfmt : Formats, out : Outputs]

Known(fmt) == fmt # "unknown"
Readable(fmt, file) == Known(fmt) /\ file = "ok"
Writable(out) == out \in {"fresh", "nested", "exists", "same"}

Succeeds(s) == /\ Readable(s.gfmt, s.graph)
               /\ Readable(s.ofmt, s.order)
               /\ Known(s.pfmt)
               /\ Writable(s.out)
(* the output location afterwards *)
After(s) == IF Succeeds(s) THEN "result" ELSE "before"
Outcome(s) == [ok |-> Succeeds(s), out |-> After(s)]

-----------------------------------------------------------------------------
VARIABLES scn, read, checked, content, ran, pc
vars == <<scn, read, checked, content, ran, pc>>
(* read: the inputs which have been parsed; checked: whether the name of the output      *)
(* format has been looked at; content: what is at the output location                    *)

Init == /\ scn \in Scenarios
        /\ read = {} /\ checked = FALSE /\ ran = FALSE
        /\ content = "before"
        /\ pc = "run"

Go == pc = "run"
Fail == pc' = "error"
ReadGraph == /\ Go /\ "graph" \notin read
             /\ IF Readable(scn.gfmt, scn.graph) THEN read' = read \cup {"graph"} /\ UNCHANGED pc
                ELSE Fail /\ UNCHANGED read
             /\ UNCHANGED <<scn, checked, content, ran>>
ReadOrder == /\ Go /\ "order" \notin read
             /\ IF Readable(scn.ofmt, scn.order) THEN read' = read \cup {"order"} /\ UNCHANGED pc
                ELSE Fail /\ UNCHANGED read
             /\ UNCHANGED <<scn, checked, content, ran>>
CheckFormat == /\ Go /\ ~ checked
               /\ IF Known(scn.pfmt) THEN checked' = TRUE /\ UNCHANGED pc
                  ELSE Fail /\ UNCHANGED checked
               /\ UNCHANGED <<scn, read, content, ran>>
Search == /\ Go /\ read = {"graph", "order"} /\ ~ ran
          /\ ran' = TRUE
          /\ UNCHANGED <<scn, read, checked, content, pc>>
Write == /\ Go /\ ran /\ checked
         /\ IF Writable(scn.out) THEN content' = "result" /\ pc' = "ok"
            ELSE Fail /\ UNCHANGED content
         /\ UNCHANGED <<scn, read, checked, ran>>
Next == ReadGraph \/ ReadOrder \/ CheckFormat \/ Search \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsPredicted == pc # "run" => Outcome(scn) = [ok |-> pc = "ok", out |-> content]
OnlyGoodResults == content = "result" => ran /\ pc = "ok"
(* if an input is bad, or a format, nothing happens to the output at any time *)
Untouched == content # "before" =>
               /\ Readable(scn.gfmt, scn.graph) /\ Readable(scn.ofmt, scn.order) /\ Known(scn.pfmt)
Terminates == <>(pc # "run")
=============================================================================
