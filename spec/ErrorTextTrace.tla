---------------------------- MODULE ErrorTextTrace ---------------------------
(* Recorded histories of errors and of the texts made of them.               *)
EXTENDS ErrorText, TraceKit

TInit == TKInit /\ heap = <<>>

\* the error that came out is the one asked for, the others are as before
Same == Len(Ev.causes) = Len(heap') /\
  \A e \in DOMAIN heap' : Ev.causes[e] = heap'[e].cause
New == IsEvent("new") /\ Ev.kind = Ev.wanted /\ Ev.args = Ev.given
  /\ Create(Ev.head, Ev.frames, Ev.of) /\ Same
\* a long chain made at once; heads one by one
Grow == IsEvent("grow")
  /\ heap' = heap \o [k \in DOMAIN Ev.heads |->
       Error(Ev.heads[k], 0, IF k = 1 THEN Len(heap) ELSE Len(heap) + k - 1)]
Again == IsEvent("again") /\ Raise(Ev.of, Ev.frames) /\ Same
Format == IsEvent("format") /\ UNCHANGED heap
  /\ Ev.parts = Parts(heap, Ev.of, Ev.how, Ev.given, Ev.limit, Ev.chain)
TNext == New \/ Grow \/ Again \/ Format
==============================================================================
