------------------------------ MODULE MCPython -------------------------------
(* Python.tla for all short programs: what a search is called with and what *)
(* is shown are compared with the program itself.                           *)
EXTENDS Python
CONSTANTS MaxOps, MaxRuns
VARIABLES heap, prog, last
vars == <<heap, prog, last>>

Texts == {"a", "b"}
Blank == [op |-> "", kind |-> "", val |-> <<>>, refs |-> <<>>, search |-> "", timeout |-> <<>>,
          nthreads |-> <<>>, bound |-> <<>>, seed |-> <<>>, accept |-> 0]
Of(kind) == {r \in DOMAIN heap : heap[r].kind = kind}
News ==
  {[Blank EXCEPT !.op = "new", !.kind = k, !.val = <<t>>] :
     k \in {"graph", "order", "path", "params"}, t \in Texts}
  \cup {[Blank EXCEPT !.op = "new", !.kind = "paths", !.refs = rs] :
          rs \in {<<>>} \cup {<<r>> : r \in Of("path")}
                 \cup {<<r, s>> : r \in Of("path"), s \in Of("path")}}
Accepts ==
  {[Blank EXCEPT !.op = "accept", !.val = <<k, f>>, !.refs = rs] :
     k \in {"BuiltinHeavyside", "ParametrizedHeavyside", "Custom", "builtin"}, f \in {"", "f"},
     rs \in {<<>>} \cup {<<r>> : r \in Of("params")}}
Reads ==
  {[Blank EXCEPT !.op = o, !.refs = <<r>>] : o \in {"show", "take"},
     r \in Of("graph") \cup Of("order") \cup Of("paths")}
  \cup {[Blank EXCEPT !.op = "show", !.refs = <<r>>] : r \in Of("path")}
Sizes == {<<>>, <<-1>>, <<0>>, <<2>>, U16, <<6, 5, 5, 3, 6>>, U32 \o <<1>>, U64, U64 \o <<0>>}
Orders == {<<<<g>>, <<t>>>> : g \in Of("graph"), t \in Texts}
          \cup {<<<<g>>, <<>>>> : g \in Of("graph")}
          \cup {<<<<g, o>>, <<>>>> : g \in Of("graph"), o \in Of("order")}
Runs ==
  {[Blank EXCEPT !.op = "run", !.refs = ro[1], !.val = ro[2], !.search = s, !.accept = a,
                 !.nthreads = n] :
     ro \in Orders, s \in {"", "yes"}, a \in {0} \cup Of("accept"), n \in {<<>>, <<2>>}}
  \cup {[Blank EXCEPT !.op = "run", !.refs = ro[1], !.val = ro[2], !.accept = a, !.timeout = t] :
          ro \in Orders, a \in {0} \cup Of("accept"), t \in Sizes}
  \cup {[Blank EXCEPT !.op = "run", !.refs = ro[1], !.val = ro[2], !.accept = a, !.nthreads = t] :
          ro \in Orders, a \in {0} \cup Of("accept"), t \in Sizes}
  \cup {[Blank EXCEPT !.op = "run", !.refs = ro[1], !.val = ro[2], !.accept = a, !.seed = t] :
          ro \in Orders, a \in {0} \cup Of("accept"), t \in Sizes}

Init == heap = <<>> /\ prog = <<>> /\ last = Ok(<<>>)
Count(op) == Cardinality({j \in DOMAIN prog : prog[j].o.op = op})
Do(o) == \E x \in Outcomes(heap, o, <<"found">>) :
           /\ prog' = Append(prog, [o |-> o, n |-> Len(x[1])])
           /\ heap' = x[1]
           /\ last' = x[2]
Next == /\ Len(prog) < MaxOps
        /\ Count("run") < MaxRuns
        /\ \E o \in News \cup Accepts \cup Reads \cup Runs : Do(o)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The value of an object before operation j, from the program alone. *)
Born(r) ==   (* the operation that created it *)
  (CHOOSE k \in DOMAIN prog : prog[k].n = r /\ \A m \in 1 .. k - 1 : prog[m].n < r)
Taken(r, j) == \E k \in 1 .. j - 1 : prog[k].o.op = "take" /\ prog[k].o.refs = <<r>>
TextOf(r, j) == IF Taken(r, j) THEN NoOrder ELSE prog[Born(r)].o.val[1]
L == Len(prog)
O == prog[L].o
Ran == L > 0 /\ O.op = "run" /\ last.out = "ok"
(* a search gets what the program gave *)
AsAsked ==
  Ran => /\ Len(last.calls) = 1
         /\ last.calls[1].graph = TextOf(O.refs[1], L)
         /\ last.calls[1].order = IF Len(O.refs) = 2 THEN TextOf(O.refs[2], L) ELSE O.val[1]
         /\ last.calls[1].search = (O.search = "yes")
         /\ (O.accept = 0) = (last.calls[1].accept = <<"none">>)
         /\ (O.timeout = <<>>) = (last.calls[1].timeout = <<>>)
         /\ O.nthreads # <<>> => last.calls[1].nthreads = O.nthreads
         /\ \A d \in {last.calls[1].nthreads} : Fits(d, U16)
         /\ last.calls[1].accept[1] = "custom" => last.calls[1].nthreads \in {<<0>>, <<1>>}
(* an error means that nothing has been done *)
NoEffect == last.out # "ok" => last.calls = <<>> /\ last.val = <<>>
OnlyRunsCall == L > 0 /\ last.calls # <<>> => O.op = "run"
(* what is shown is what was put in *)
Shows ==
  L > 0 /\ O.op \in {"show", "take"} =>
    \/ /\ heap[O.refs[1]].kind \in {"graph", "order", "path"}
       /\ last.val = <<TextOf(O.refs[1], L)>>
    \/ /\ heap[O.refs[1]].kind = "paths"
       /\ last.val = IF Taken(O.refs[1], L) THEN <<>>
                     ELSE IF prog[Born(O.refs[1])].o.op = "run" THEN <<"found">>
                     ELSE [j \in DOMAIN prog[Born(O.refs[1])].o.refs |->
                             TextOf(prog[Born(O.refs[1])].o.refs[j], L)]
(* only take changes an object, and only that object *)
Frame ==
  [][\A r \in DOMAIN heap : heap'[r] # heap[r] =>
        prog'[Len(prog')].o.op = "take" /\ prog'[Len(prog')].o.refs = <<r>>]_vars
=============================================================================
