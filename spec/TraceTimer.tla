----------------------------- MODULE TraceTimer -----------------------------
(***************************************************************************)
(* Judges recorded uses of timers of the real code (C10).  All times are   *)
(* microseconds; a and b are the times right before and after a call, and  *)
(* the events are in the order of a.                                       *)
(*                                                                         *)
(* data.json: scripts, a list of records with slack, prompt (how late a    *)
(*   due timer may be noticed at most, and how long a drop may take),      *)
(*   out and events [k, a, b, d, r]: k is "start" (with the duration d),   *)
(*   "query" (with the answer r), "drop", or "stale": a thread was told    *)
(*   that the timer is not finished after another one had already been     *)
(*   told that it is                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

Data == JsonDeserialize("data.json")
Scripts == Data.scripts

VARIABLES c, p, start, fired, err
vars == <<c, p, start, fired, err>>
(* start: <<>> or <<the start event>>; fired: <<>> or <<when the answer yes was there>>. *)
(* The times are rounded down, so only a later microsecond is certainly later.            *)

Script == Scripts[c]
Ev == Script.events[p + 1]

Init == c \in DOMAIN Scripts /\ p = 0 /\ start = <<>> /\ fired = <<>> /\ err = ""

Active == Script.out = "ok" /\ err = "" /\ p < Len(Script.events)

Start == /\ Active /\ Ev.k = "start"
         /\ start' = <<Ev>>
         /\ UNCHANGED <<fired, err>>

Yes == /\ Active /\ Ev.k = "query" /\ Ev.r
       /\ fired' = IF fired = <<>> THEN <<Ev.b>> ELSE fired
       /\ err' = IF start = <<>> THEN "finished, but never started"
                 ELSE IF Ev.b - start[1].a < start[1].d THEN "finished too early" ELSE ""
       /\ UNCHANGED start

No == /\ Active /\ Ev.k = "query" /\ ~ Ev.r
      /\ err' = IF fired # <<>> /\ Ev.a > fired[1] THEN "no longer finished"
                ELSE IF start # <<>> /\ Ev.a - start[1].b > start[1].d + Script.slack
                THEN "does not finish" ELSE ""
      /\ UNCHANGED <<start, fired>>

Stale == /\ Active /\ Ev.k = "stale"
         /\ err' = "not finished for another thread"
         /\ UNCHANGED <<start, fired>>

Drop == /\ Active /\ Ev.k = "drop"
        /\ err' = IF Ev.b - Ev.a > Script.prompt THEN "slow to drop" ELSE ""
        /\ UNCHANGED <<start, fired>>

Next == (Start \/ Yes \/ No \/ Stale \/ Drop) /\ p' = p + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Ends == Script.out = "ok"
TimerIsRight == err = ""
EverythingUsed == Script.out = "ok" /\ ~ ENABLED Next => err # "" \/ p = Len(Script.events)
=============================================================================
