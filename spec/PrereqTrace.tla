----------------------------- MODULE PrereqTrace -----------------------------
(* Recorded checks.  The first event gives the request, the last the result. *)
EXTENDS Prereq, TraceKit

VARIABLES begun
TInit == TKInit /\ begun = FALSE /\ PInit("?", TRUE)

Begin == IsEvent("check") /\ ~begun /\ begun' = TRUE
  /\ mode' = Ev.mode /\ inter' = Ev.inter
  /\ UNCHANGED <<present, upd, installs, updates, done>>
Step ==
  \/ IsEvent("present?") /\ Ask(Ev.r)
  \/ IsEvent("install") /\ Install(Ev.inter, Ev.r)
  \/ IsEvent("updated?") /\ AskUpdated(Ev.r)
  \/ IsEvent("update") /\ Update(Ev.inter, Ev.r)
  \/ IsEvent("pass") /\ Pass
     /\ Ev.told = [outdated |-> Told.outdated, install |-> Told.wouldinstall,
                   update |-> Told.wouldupdate]
  \/ IsEvent("fail") /\ Fail
TNext == Begin \/ (begun /\ Step /\ UNCHANGED begun)
==============================================================================
