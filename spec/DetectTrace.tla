----------------------------- MODULE DetectTrace -----------------------------
(* Recorded histories of lists of detectors.                                 *)
EXTENDS Detect, TraceKit

TInit == TKInit /\ DInit
Dets == Trace[t].dets

Result == IF Ev.override # <<>> THEN Overridden(Ev.override[1])
          ELSE Detected(Dets, insts[Ev.i])
Same == UNCHANGED dvars
TNext ==
  \/ IsEvent("register") /\ Register(Ev.name, Ev.d)
  \/ IsEvent("new") /\ New(Ev.given)
  \/ IsEvent("add") /\ AddTo(Ev.i, Ev.name, Ev.d)
  \/ IsEvent("detect") /\ Same /\ Ev.got = Result
  \/ /\ IsEvent("get") /\ Same
     /\ Ev.got \in Known(Dets, insts[Ev.i], Ev.what)
  \/ IsEvent("detector") /\ Same /\ Ev.got = Lookup(insts[Ev.i], Ev.name)
  \/ /\ IsEvent("mine") /\ Same
     /\ LET r == Detected(Dets, insts[Ev.i])
            k == FirstAt(insts[Ev.i], LAMBDA x : Dets[x[2]].is)
        IN Ev.got = IF r = <<>> THEN <<>> ELSE <<insts[Ev.i][k][2]>>
==============================================================================
