------------------------------ MODULE ErrorText ------------------------------
(* Errors with direct causes and how they are shown.  heap[e] is an error:   *)
(* head is how the error itself is written, frames the number of frames of   *)
(* its traceback (0: it was never raised), cause the error it was directly   *)
(* caused by (0: none).                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES heap

Error(head, frames, cause) == [head |-> head, frames |-> frames, cause |-> cause]

\* oldest cause first
RECURSIVE Chain(_, _)
Chain(h, e) == IF h[e].cause = 0 THEN <<e>> ELSE Append(Chain(h, h[e].cause), e)

Create(head, frames, cause) ==
  /\ cause \in 0..Len(heap)
  /\ heap' = Append(heap, Error(head, frames, cause))
\* raised once more: the traceback grows
Raise(e, frames) ==
  /\ frames > heap[e].frames
  /\ heap' = [heap EXCEPT ![e].frames = frames]

Shown(frames, limit) == IF limit = 0 \/ frames < limit THEN frames ELSE limit

\* how: "no" tracebacks, the "own" ones, or another one of `given` frames for
\* the last error.  limit = 0 means none.  A part of the text is
\* <<head, is there a traceback, frames shown>>
Part(h, e, frames, limit) == <<h[e].head, frames # 0, Shown(frames, limit)>>
Parts(h, e, how, given, limit, chain) ==
  LET c == IF chain THEN Chain(h, e) ELSE <<e>>
      Frames(k) == IF how = "no" THEN 0
                   ELSE IF how = "given" /\ k = Len(c) THEN given
                   ELSE h[c[k]].frames
  IN [k \in DOMAIN c |-> Part(h, c[k], Frames(k), limit)]
==============================================================================
