---------------------------- MODULE TraceManual -----------------------------
(***************************************************************************)
(* Replays histories of requested steps on manually driven schedulers and  *)
(* path generators of the real code (C08); with a relabelling and a reused *)
(* buffer also C17.                                                        *)
(*                                                                         *)
(* data.json: insts, a list of records with adj, order and map (pairs;     *)
(* adj is in the new labels), and scripts, a list of records with ins,     *)
(* out, space (whether there is a graph, and its memory is observed),      *)
(* init, and events, a list of records with                                *)
(*   m      "in": in place; "copy": a copy which is dropped; "step": a     *)
(*          copy which replaces the original; "iter": a copy made by the   *)
(*          automatic iteration, s is its step (or empty, at the end)      *)
(*   s      the requested step, a sequence of numbers                      *)
(*   res    "ok", "err" or "panic"; kind, nodes: the error                 *)
(*   orig, copied, after   what is observed of the original after the      *)
(*          request, of the copy, and of whatever the script goes on with  *)
(***************************************************************************)
EXTENDS Relabel, Json

Data == JsonDeserialize("data.json")
Given == [k_ \in DOMAIN Data.insts |->
            [adj |-> Data.insts[k_].adj,
             order |-> RelabelledOrder(Data.insts[k_].order, Data.insts[k_].map)]]
Insts == [k_ \in DOMAIN Given |-> Derive(Given[k_])]
Scripts == Data.scripts

VARIABLES c, p, M, mem, err
vars == <<c, p, M, mem, err>>

Script == Scripts[c]
I == Insts[Script.ins]
Ev == Script.events[p + 1]

Shows(obs, N, m) ==
  /\ NoDuplicates(obs.time.meas)
  /\ Range(obs.time.meas) = Measurable(I, N)
  /\ obs.time.un = (Blocked(I, N) # {})
  /\ Script.space =>
       /\ Len(obs.space.states) = I.n
       /\ \A v \in I.nodes : obs.space.states[v + 1] = NodeState(I, N, v)
       /\ obs.space.cur = Current(I, N)
       /\ obs.space.max = m

(* The nodes a request must not contain, and those it contains more than once. *)
Offending(s) ==
  {v \in Range(s) : v \notin Measurable(I, M) \/ Cardinality({j \in DOMAIN s : s[j] = v}) > 1}

RECURSIVE First(_)
First(checks) == IF checks = <<>> THEN ""
                 ELSE IF Head(checks)[1] THEN First(TLCEval(Tail(checks))) ELSE Head(checks)[2]

Init == /\ c \in DOMAIN Scripts
        /\ p = 0
        /\ M = {}
        /\ mem = 0
        /\ err = ""

(* The automatic iteration offers possible steps and leaves the node where it is. *)
Iterate ==
  /\ Script.out = "ok" /\ err = "" /\ p < Len(Script.events)
  /\ Ev.m = "iter"
  /\ p' = p + 1
  /\ UNCHANGED <<c, M, mem>>
  /\ LET S == TLCEval(Range(Ev.s)) IN
     err' = First(TLCEval(<<
       <<Ev.res # "panic", "panic">>,
       <<Offending(Ev.s) = {}, "impossible step offered">>,
       <<S # {} => Shows(Ev.copied, TLCEval(M \cup S), Max2(mem, Peak(I, M, S))),
         "state of the iterated copy">>,
       <<Shows(Ev.after, M, mem), "changed by the iteration">> >>))

Request ==
  /\ Script.out = "ok" /\ err = "" /\ p < Len(Script.events)
  /\ Ev.m # "iter"
  /\ p' = p + 1
  /\ UNCHANGED c
  /\ LET bad == TLCEval(Offending(Ev.s))
         S == TLCEval(Range(Ev.s))
         N == TLCEval(M \cup S)
         m == TLCEval(Max2(mem, Peak(I, M, S)))
     IN  IF bad # {}
         THEN /\ UNCHANGED <<M, mem>>
              /\ err' = First(TLCEval(<<
                   <<Ev.res # "panic", "panic">>,
                   <<Ev.res = "err", "impossible step accepted">>,
                   <<Ev.kind = "not", "wrong kind of error">>,
                   <<Range(Ev.nodes) = bad, "error does not name the offending nodes">>,
                   <<Shows(Ev.after, M, mem), "changed by a rejected step">> >>))
         ELSE LET keeps == Ev.m = "copy" IN
              /\ M' = IF keeps THEN M ELSE N
              /\ mem' = IF keeps THEN mem ELSE m
              /\ err' = First(TLCEval(<<
                   <<Ev.res # "panic", "panic">>,
                   <<Ev.res = "ok", "possible step rejected">>,
                   <<Ev.m # "in" => Shows(Ev.orig, M, mem), "original changed">>,
                   <<Ev.m # "in" => Shows(Ev.copied, N, m), "state of the copy">>,
                   <<Ev.m # "copy" => Shows(Ev.after, N, m), "state after the step">> >>))

Next == Request \/ Iterate
Spec == Init /\ [][Next]_vars

Ends == Script.out = "ok"
AllRequestsFit == err = ""
InitialState == p = 0 /\ Script.out = "ok" => Shows(Script.init, {}, 0)
ASSUME Sane == \A j \in DOMAIN Given : WellFormed(Given[j])
=============================================================================
