----------------------------- MODULE DownloadTrace ---------------------------
(* Recorded downloads from a real server: the attempts it saw, the time in   *)
(* between, the result.  Times are in microseconds; -1 means unknown.        *)
EXTENDS Download, TraceKit

VARIABLES cause, text

TInit == TKInit /\ DInit(0) /\ cause = "" /\ text = ""

Begin == IsEvent("begin") /\ l = 1
  /\ left' = (IF Ev.retry > 0 THEN Ev.retry ELSE 0)
  /\ UNCHANGED <<tries, waits, st, last, cause, text>>
Try == IsEvent("attempt") /\ l > 1 /\ Attempt(Ev.o)
  /\ cause' = Ev.cause /\ text' = Ev.text
  /\ \/ Ev.limit = -1
     \/ /\ Ev.limit >= Ev.timeout - Ev.timeout \div 100
        /\ Ev.limit <= Ev.timeout + Ev.timeout \div 100
\* the requested period, give or take one percent; a timed-out attempt takes
\* at least the time allowed
Between ==
  /\ IsEvent("wait") /\ Wait /\ UNCHANGED <<cause, text>>
  /\ Ev.slept = -1 \/ (Ev.slept >= Ev.period - Ev.period \div 100
                       /\ Ev.slept <= Ev.period + Ev.period \div 100)
  /\ Ev.gap = -1 \/ (Ev.gap <= Ev.period + Ev.timeout + 8000000 /\
       Ev.gap + 3000 >= Ev.period + (IF last = "timeout" THEN Ev.timeout ELSE 0))
Ending ==
  /\ IsEvent("result") /\ UNCHANGED <<dvars, cause, text>>
  /\ Ev.slept = 0
  /\ \/ st = "ok" /\ Ev.kind = "text" /\ Ev.text = text
     \/ /\ st = "failed" /\ Ev.kind = "failure"
        /\ IF cause = "" THEN Ev.cause # "none" ELSE Ev.cause = cause
TNext == Begin \/ Try \/ Between \/ Ending
==============================================================================
