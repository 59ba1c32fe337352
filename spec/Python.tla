------------------------------- MODULE Python --------------------------------
(***************************************************************************)
(* The python bindings (C20) as a heap machine.  The heap is a sequence of *)
(* objects, records with                                                   *)
(*   kind  "graph", "order", "path", "paths", "params", "accept"           *)
(*   val   what it is made of, a sequence of strings: the text of the      *)
(*         graph, order or path; the paths; the parameters; for an accept  *)
(*         function <<"builtin">>, <<"param", ...>> or <<"custom", f>>     *)
(* An operation is a record with                                           *)
(*   op    "new"   creates an object of the kind with the value (for paths *)
(*                 the value is given by refs, a sequence of path objects) *)
(*         "accept" creates an accept function: val[1] is the requested    *)
(*                 kind, val[2] the custom function ("" if there is none)  *)
(*                 and refs holds the parameters, if any                   *)
(*         "show", "take"  reads / takes the value of the object refs[1]   *)
(*         "run"   a search with                                           *)
(*           refs      <<graph>> or <<graph, order>>                       *)
(*           val       without order: the text of the foreign order; ""    *)
(*                     if the object has none                              *)
(*           search    "no", "yes" or "" (not given)                       *)
(*           timeout, nthreads, bound, seed  digits; <<>>: not given; <<-1>>*)
(*                     negative                                            *)
(*           accept    an accept object or 0 (no probabilistic search)     *)
(* The result of an operation is a record with                             *)
(*   out   "ok" or the error                                               *)
(*   val   the value that it shows                                         *)
(*   calls the searches made of the library, a sequence of records         *)
(*   warn  the number of warnings                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

U64 == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
U32 == <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
U16 == <<6, 5, 5, 3, 5>>
Less(a, b) ==
  \E j \in DOMAIN a : a[j] < b[j] /\ \A k \in 1 .. j - 1 : a[k] = b[k]
Fits(d, limit) ==
  \/ d = <<>>
  \/ /\ d[1] # -1
     /\ \/ Len(d) < Len(limit)
        \/ Len(d) = Len(limit) /\ (d = limit \/ Less(d, limit))
Given(d, default) == IF d = <<>> THEN default ELSE d

NoOrder == "[]"     (* the text of an empty list *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Obj(kind, val) == [kind |-> kind, val |-> val]
Ok(val) == [out |-> "ok", val |-> val, calls |-> <<>>, warn |-> 0]
Fail(e) == [out |-> e, val |-> <<>>, calls |-> <<>>, warn |-> 0]

-----------------------------------------------------------------------------
(* creating objects: the object or an error *)
Created(heap, o) ==
  IF o.kind = "paths" THEN Flat([j \in DOMAIN o.refs |-> heap[o.refs[j]].val])
  ELSE o.val

AcceptFails(o) ==
  CASE o.val[1] = "BuiltinHeavyside" -> FALSE
    [] o.val[1] = "ParametrizedHeavyside" -> o.refs = <<>>
    [] o.val[1] = "Custom" -> o.val[2] = ""
    [] OTHER -> TRUE
Accepted(heap, o) ==
  CASE o.val[1] = "BuiltinHeavyside" -> <<"builtin">>
    [] o.val[1] = "ParametrizedHeavyside" -> <<"param">> \o heap[o.refs[1]].val
    [] OTHER -> <<"custom", o.val[2]>>

(* what can be seen of an object directly *)
Visible(kind, val) == IF kind = "path" THEN val ELSE <<>>

(* what is left of an object when its value has been taken *)
Empty(kind) == IF kind = "paths" THEN <<>> ELSE <<NoOrder>>

-----------------------------------------------------------------------------
(* a search *)
IsCustom(heap, o) == o.accept # 0 /\ heap[o.accept].val[1] = "custom"
Threads(o) == Given(o.nthreads, <<1>>)
Many(d) == d # <<0>> /\ d # <<1>>
Errors(heap, o) ==
  (IF Fits(o.timeout, U32) /\ Fits(o.nthreads, U16) /\ Fits(o.bound, U32)
      /\ (o.accept # 0 => Fits(o.seed, U64))
   THEN {} ELSE {"OverflowError"})
  \cup (IF Fits(o.nthreads, U16) /\ Many(Threads(o)) /\ IsCustom(heap, o)
        THEN {"ValueError"} ELSE {})
  \cup (IF Len(o.refs) = 1 /\ o.val = <<>> THEN {"AttributeError"} ELSE {})
Call(heap, o) ==
  [graph |-> heap[o.refs[1]].val[1],
   order |-> IF Len(o.refs) = 2 THEN heap[o.refs[2]].val[1] ELSE o.val[1],
   search |-> o.search = "yes",
   timeout |-> IF o.timeout = <<>> THEN <<>> ELSE <<o.timeout, <<0>>>>,
   nthreads |-> Threads(o),
   bound |-> o.bound,
   accept |-> IF o.accept = 0 THEN <<"none">> ELSE heap[o.accept].val,
   seed |-> IF o.accept = 0 THEN <<>> ELSE o.seed]

-----------------------------------------------------------------------------
(* The possible outcomes of an operation: pairs of the heap afterwards and *)
(* the result.  found is what the library returns if it is called.         *)
Outcomes(heap, o, found) ==
  CASE o.op = "new" ->
         {<<Append(heap, Obj(o.kind, Created(heap, o))), Ok(Visible(o.kind, Created(heap, o)))>>}
    [] o.op = "accept" ->
         IF AcceptFails(o) THEN {<<heap, Fail("ValueError")>>}
         ELSE {<<Append(heap, Obj("accept", Accepted(heap, o))), Ok(<<>>)>>}
    [] o.op = "show" -> {<<heap, Ok(heap[o.refs[1]].val)>>}
    [] o.op = "take" ->
         {<<[heap EXCEPT ![o.refs[1]].val = Empty(heap[o.refs[1]].kind)],
            Ok(heap[o.refs[1]].val)>>}
    [] o.op = "run" ->
         IF Errors(heap, o) # {} THEN {<<heap, Fail(e)>> : e \in Errors(heap, o)}
         ELSE {<<Append(heap, Obj("paths", found)),
                 [out |-> "ok", val |-> Visible("paths", found), calls |-> <<Call(heap, o)>>,
                  warn |-> IF Len(o.refs) = 1 THEN 1 ELSE 0]>>}
=============================================================================
