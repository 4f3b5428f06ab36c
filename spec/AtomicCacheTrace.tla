-------------------------- MODULE AtomicCacheTrace --------------------------
(* Recorded executions: controlled updates with a reader after every         *)
(* file-system operation.  Is there a way to place the indivisible steps?    *)
EXTENDS AtomicCache, TraceKit

vars == <<cur, running, done>>

TInit == /\ TKInit
         /\ cur = [s \in 1..Trace[t].n |->
                    IF Trace[t].initial THEN "v0" ELSE "missing"]
         /\ running = <<>>
         /\ done = {}

TBegin == IsEvent("begin") /\ Begin(Ev.u, Ev.v)
TStep == IsEvent("step") /\ Step(Ev.u)
\* an update that is not itself disturbed has to succeed, whatever the others
\* do or whatever happens to them
TEnd == IsEvent("end") /\ Ev.how # "lost"
        /\ (~Ev.disturbed => Ev.how = "ok")
        /\ End(Ev.u, Ev.how)
TRead == IsEvent("read") /\ Ev.val = cur /\ UNCHANGED vars

TNext == TBegin \/ TStep \/ TEnd \/ TRead
=============================================================================
