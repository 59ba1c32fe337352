-------------------------------- MODULE Rules --------------------------------
EXTENDS Mbqc

(* The accept rules that the harness uses (harness/src/accept.rs). *)
Accepted(rule, lastMax, lastCur, cur) ==
  CASE rule.kind = "all"  -> TRUE
    [] rule.kind = "none" -> FALSE
    [] rule.kind = "mod"  ->
         (rule.a * lastMax + rule.b * lastCur + rule.c * cur) % rule.m # rule.r
    [] rule.kind = "cap"  -> cur <= rule.a
    [] rule.kind = "grow" -> cur - lastCur <= rule.a
    [] rule.kind = "last" -> lastCur < rule.a
=============================================================================
