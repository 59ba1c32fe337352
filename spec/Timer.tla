------------------------------- MODULE Timer --------------------------------
(***************************************************************************)
(* The timer: a thread waits for a condition variable with a timeout,      *)
(* with the predicate "the timer is being dropped" protected by a mutex;   *)
(* when the time is up, it raises a flag that anybody may read.  Dropping  *)
(* sets the predicate, notifies and joins.  Waits may end spuriously.      *)
(* Time only passes in Tick, and nothing demands that it passes, so that   *)
(* whatever is guaranteed to happen happens without waiting for the time.  *)
(*                                                                         *)
(* Mutant: "none", or one of the mistakes that the properties can tell:    *)
(*   nopredicate  the first wait does not look at the predicate            *)
(*   anywake      whatever ends the wait raises the flag                   *)
(*   nonotify     dropping does not notify                                 *)
(*   onewait      a spurious wake-up ends the timer without the flag       *)
(***************************************************************************)
EXTENDS Naturals

CONSTANTS Durations, Horizon, Mutant

VARIABLES now, dur, owner, tpc, lock, dropping, notified, begun, since, flag, seen
vars == <<now, dur, owner, tpc, lock, dropping, notified, begun, since, flag, seen>>
(* owner: whoever has the timer; tpc: the timer's thread; begun: when start was called, *)
(* since: when the wait began; seen: the last answer to a query                          *)

Init == /\ now = 0
        /\ dur \in Durations
        /\ owner = "new"
        /\ tpc = "none"
        /\ lock = "free"
        /\ dropping = FALSE
        /\ notified = FALSE
        /\ begun = 0
        /\ since = 0
        /\ flag = FALSE
        /\ seen = FALSE

Tick == now < Horizon /\ now' = now + 1
        /\ UNCHANGED <<dur, owner, tpc, lock, dropping, notified, begun, since, flag, seen>>

Start == /\ owner = "new"
         /\ owner' = "running"
         /\ tpc' = "lock"
         /\ begun' = now
         /\ UNCHANGED <<now, dur, lock, dropping, notified, since, flag, seen>>

Query == /\ owner \in {"new", "running"}
         /\ seen' = flag
         /\ UNCHANGED <<now, dur, owner, tpc, lock, dropping, notified, begun, since, flag>>

(* the thread *)
Lock == /\ tpc = "lock" /\ lock = "free"
        /\ lock' = "timer"
        /\ since' = now
        /\ tpc' = IF Mutant = "nopredicate" THEN "sleep" ELSE "check"
        /\ UNCHANGED <<now, dur, owner, dropping, notified, begun, flag, seen>>

Check == /\ tpc = "check"
         /\ tpc' = IF dropping THEN (IF Mutant = "anywake" THEN "raise" ELSE "unlock")
                   ELSE IF now - since >= dur THEN "raise"
                   ELSE "sleep"
         /\ UNCHANGED <<now, dur, owner, lock, dropping, notified, begun, since, flag, seen>>

Sleep == /\ tpc = "sleep"        \* gives the lock up and waits, at once
         /\ tpc' = "wait"
         /\ lock' = "free"
         /\ notified' = FALSE
         /\ UNCHANGED <<now, dur, owner, dropping, begun, since, flag, seen>>

Wake == /\ tpc = "wait"
        /\ notified \/ now - since >= dur
        /\ tpc' = "relock"
        /\ UNCHANGED <<now, dur, owner, lock, dropping, notified, begun, since, flag, seen>>

Spurious == /\ tpc = "wait"
            /\ tpc' = IF Mutant = "anywake" THEN "raise"
                      ELSE IF Mutant = "onewait" THEN "unlock" ELSE "relock"
            /\ UNCHANGED <<now, dur, owner, lock, dropping, notified, begun, since, flag, seen>>

Relock == /\ tpc = "relock" /\ lock = "free"
          /\ lock' = "timer"
          /\ tpc' = "check"
          /\ UNCHANGED <<now, dur, owner, dropping, notified, begun, since, flag, seen>>

Raise == /\ tpc = "raise"
         /\ flag' = TRUE
         /\ tpc' = "unlock"
         /\ UNCHANGED <<now, dur, owner, lock, dropping, notified, begun, since, seen>>

Unlock == /\ tpc = "unlock"
          /\ lock' = IF lock = "timer" THEN "free" ELSE lock
          /\ tpc' = "done"
          /\ UNCHANGED <<now, dur, owner, dropping, notified, begun, since, flag, seen>>

(* dropping *)
Drop == /\ owner \in {"new", "running"}
        /\ owner' = "drop"
        /\ UNCHANGED <<now, dur, tpc, lock, dropping, notified, begun, since, flag, seen>>

Set == /\ owner = "drop" /\ lock = "free"
       /\ dropping' = TRUE
       /\ owner' = "notify"
       /\ UNCHANGED <<now, dur, tpc, lock, notified, begun, since, flag, seen>>

Notify == /\ owner = "notify"
          /\ notified' = (notified \/ (tpc = "wait" /\ Mutant # "nonotify"))
          /\ owner' = "join"
          /\ UNCHANGED <<now, dur, tpc, lock, dropping, begun, since, flag, seen>>

Join == /\ owner = "join"
        /\ tpc \in {"none", "done"}
        /\ owner' = "gone"
        /\ UNCHANGED <<now, dur, tpc, lock, dropping, notified, begun, since, flag, seen>>

Thread == Lock \/ Check \/ Sleep \/ Wake \/ Relock \/ Raise \/ Unlock
Next == Tick \/ Start \/ Query \/ Thread \/ Spurious \/ Drop \/ Set \/ Notify \/ Join
Spec == /\ Init /\ [][Next]_vars
        /\ SF_vars(Lock) /\ SF_vars(Relock) /\ SF_vars(Set)
        /\ WF_vars(Check) /\ WF_vars(Sleep) /\ WF_vars(Wake) /\ WF_vars(Raise)
        /\ WF_vars(Unlock) /\ WF_vars(Notify) /\ WF_vars(Join)

(* C10 *)
NeverEarly == flag => tpc # "none" /\ now - begun >= dur
NotStarted == tpc = "none" => ~ flag
OnlyTheTruth == seen => flag
Exclusive == (tpc \in {"check", "sleep"}) => lock = "timer"
Stays == [][flag => flag']_vars
Due == tpc \notin {"none", "lock"} /\ now - since >= dur
Fires == Due /\ owner = "running" ~> flag \/ owner # "running"
DropReturns == owner = "drop" ~> owner = "gone"
=============================================================================
