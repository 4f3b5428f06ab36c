------------------------------- MODULE Download ------------------------------
(* One download.  An attempt ends with "ok", "busy" (service unavailable),   *)
(* "timeout" or something else; after a transient failure the period passes  *)
(* and another attempt is made while retries are left.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES left, tries, waits, st, last

dvars == <<left, tries, waits, st, last>>

Transient == {"busy", "timeout"}

DInit(retry) ==
  /\ left = IF retry > 0 THEN retry ELSE 0
  /\ tries = 0 /\ waits = 0 /\ st = "try" /\ last = "none"

Attempt(o) ==
  /\ st = "try" /\ tries' = tries + 1 /\ last' = o
  /\ IF o \in Transient /\ left > 0
     THEN st' = "wait" /\ left' = left - 1
     ELSE st' = (IF o = "ok" THEN "ok" ELSE "failed") /\ left' = left
  /\ UNCHANGED waits
Wait == st = "wait" /\ st' = "try" /\ waits' = waits + 1 /\ UNCHANGED <<left, tries, last>>
==============================================================================
