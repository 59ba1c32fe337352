----------------------------- MODULE TracePython -----------------------------
(***************************************************************************)
(* Holds programs that were executed with the real bindings, operation by  *)
(* operation, against Python.tla (C20).                                    *)
(*                                                                         *)
(* data.json: programs, a list of lists of records with                    *)
(*   op      the operation, cf. Python.tla                                 *)
(*   found   what the library was told to find                             *)
(*   samples what the accept function was told to be called with, a list   *)
(*           of lists of strings                                           *)
(*   got     the result: out, val, calls, warn as in Python.tla; a call    *)
(*           has in addition returned, what a custom accept function       *)
(*           returned to the library; callbacks, what it was called with   *)
(***************************************************************************)
EXTENDS Json, Integers, Sequences, TLC
VARIABLES c, p, heap, ok
Data == JsonDeserialize("data.json")
X == INSTANCE Python
vars == <<c, p, heap, ok>>
R == Data.programs[c]

Init == c \in DOMAIN Data.programs /\ p = 0 /\ heap = <<>> /\ ok = "yes"

Core(call) == [k \in {"graph", "order", "search", "timeout", "nthreads", "bound", "accept",
                      "seed"} |-> call[k]]
(* The library's calls of a custom accept function arrive at it, and its   *)
(* values at the library.                                                  *)
Callback(e, x) ==
  IF x.calls # <<>> /\ x.calls[1].accept[1] = "custom"
  THEN /\ e.got.callbacks = e.samples
       /\ e.got.calls[1].returned
            = [j \in DOMAIN e.samples |-> x.calls[1].accept[2]]
  ELSE e.got.callbacks = <<>>
(* Only the number of warnings of a call that succeeds is specified. *)
Matches(e, x) ==
  /\ e.got.out = x.out
  /\ e.got.val = x.val
  /\ Len(e.got.calls) = Len(x.calls)
  /\ \A j \in DOMAIN x.calls : Core(e.got.calls[j]) = x.calls[j]
  /\ e.got.out = "ok" => e.got.warn = x.warn
  /\ Callback(e, x)

Do ==
  /\ p < Len(R) /\ ok = "yes"
  /\ p' = p + 1
  /\ c' = c
  /\ LET e == R[p + 1]
         fit == {x \in X!Outcomes(heap, e.op, e.found) : Matches(e, x[2])}
     IN  IF fit = {} THEN ok' = "no" /\ heap' = heap
         ELSE ok' = ok /\ heap' = (CHOOSE x \in fit : TRUE)[1]
Next == Do
Spec == Init /\ [][Next]_vars

AsSpecified == ok = "yes"
=============================================================================
