----------------------------- MODULE TraceGraph -----------------------------
(***************************************************************************)
(* Replays measurements on graphs of the real code, without a time order   *)
(* (C09): any nodes may be measured, in any order, but only once.          *)
(*                                                                         *)
(* data.json as for TraceManual.tla, with graphs (adjacency lists) instead *)
(* of insts, and what is observed of a graph (states, cur, max) instead of *)
(* what is observed of a scheduler.  After an error of an in-place step    *)
(* the script ends (the documentation does not say what is left).          *)
(***************************************************************************)
EXTENDS Mbqc, Json

Data == JsonDeserialize("data.json")
Graphs == [k_ \in DOMAIN Data.graphs |->
             Derive([adj |-> Data.graphs[k_], order |-> <<>>])]
Scripts == Data.scripts

VARIABLES c, p, M, mem, err
vars == <<c, p, M, mem, err>>

Script == Scripts[c]
G == Graphs[Script.ins]
Ev == Script.events[p + 1]

Shows(obs, N, m) ==
  /\ Len(obs.states) = G.n
  /\ \A v \in G.nodes : obs.states[v + 1] = NodeState(G, N, v)
  /\ obs.cur = Current(G, N)
  /\ obs.max = m

Offending(s) ==
  {v \in Range(s) : v \in M \/ Cardinality({j \in DOMAIN s : s[j] = v}) > 1}

RECURSIVE First(_)
First(checks) == IF checks = <<>> THEN ""
                 ELSE IF Head(checks)[1] THEN First(TLCEval(Tail(checks))) ELSE Head(checks)[2]

Init == /\ c \in DOMAIN Scripts
        /\ p = 0
        /\ M = {}
        /\ mem = 0
        /\ err = ""

Request ==
  /\ Script.out = "ok" /\ err = "" /\ p < Len(Script.events)
  /\ p' = p + 1
  /\ UNCHANGED c
  /\ LET bad == TLCEval(Offending(Ev.s))
         S == TLCEval(Range(Ev.s))
         N == TLCEval(M \cup S)
         m == TLCEval(Max2(mem, Peak(G, M, S)))
     IN  IF bad # {}
         THEN /\ UNCHANGED <<M, mem>>
              /\ err' = First(TLCEval(<<
                   <<Ev.res # "panic", "panic">>,
                   <<Ev.res = "err", "measured twice">>,
                   <<Ev.kind = "already", "wrong kind of error">>,
                   <<Len(Ev.nodes) = 1 /\ Range(Ev.nodes) \subseteq bad,
                     "error does not name a node which is measured twice">>,
                   <<Ev.m # "in" => Shows(Ev.after, M, mem), "original changed">>,
                   <<Ev.m = "in" => p + 1 = Len(Script.events), "script continues">> >>))
         ELSE LET keeps == Ev.m = "copy" IN
              /\ M' = IF keeps THEN M ELSE N
              /\ mem' = IF keeps THEN mem ELSE m
              /\ err' = First(TLCEval(<<
                   <<Ev.res # "panic", "panic">>,
                   <<Ev.res = "ok", "measurement refused">>,
                   <<Ev.m # "in" => Shows(Ev.orig, M, mem), "original changed">>,
                   <<Ev.m # "in" => Shows(Ev.copied, N, m), "state of the copy">>,
                   <<Ev.m # "copy" => Shows(Ev.after, N, m), "state after the step">> >>))

Next == Request
Spec == Init /\ [][Next]_vars

Ends == Script.out = "ok"
AllRequestsFit == err = ""
InitialState == p = 0 /\ Script.out = "ok" => Shows(Script.init, {}, 0)
ASSUME Sane == \A j \in DOMAIN Data.graphs :
                  WellFormed([adj |-> Data.graphs[j], order |-> <<>>])
=============================================================================
