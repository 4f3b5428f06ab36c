-------------------------------- MODULE Prereq -------------------------------
(* One check of the prerequisites of a package manager installer.  mode is   *)
(* "no" (do not fix), "fix" or "simulate".  present and upd hold the last    *)
(* answer about the package manager, "?" if it was not asked for or if the   *)
(* answer is no longer valid.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES mode, inter, present, upd, installs, updates, done

pvars == <<mode, inter, present, upd, installs, updates, done>>

PInit(m, i) ==
  /\ mode = m /\ inter = i /\ present = "?" /\ upd = "?"
  /\ installs = 0 /\ updates = 0 /\ done = "no"

Ask(ans) ==
  /\ done = "no"
  /\ present' = ans
  /\ UNCHANGED <<mode, inter, upd, installs, updates, done>>

\* outcome: "done" or "unsupported"
Install(i, outcome) ==
  /\ done = "no" /\ mode = "fix" /\ present = "no" /\ installs = 0 /\ i = inter
  /\ installs' = 1
  /\ present' = IF outcome = "unsupported" THEN "no" ELSE "?"
  /\ UNCHANGED <<mode, inter, upd, updates, done>>

AskUpdated(ans) ==
  /\ done = "no" /\ (present = "yes" \/ mode = "simulate")
  /\ upd' = ans
  /\ UNCHANGED <<mode, inter, present, installs, updates, done>>

Update(i, outcome) ==
  /\ done = "no" /\ mode = "fix" /\ present = "yes" /\ upd = "no"
  /\ updates = 0 /\ i = inter
  /\ updates' = 1
  /\ upd' = IF outcome = "unsupported" THEN "no" ELSE "?"
  /\ UNCHANGED <<mode, inter, present, installs, done>>

\* what the user is told at the end of a check that passes
Told == [outdated |-> mode # "simulate" /\ upd = "no",
         wouldinstall |-> mode = "simulate" /\ present = "no",
         wouldupdate |-> mode = "simulate" /\ upd = "no"]

Pass ==
  /\ done = "no"
  /\ \/ present = "yes" /\ upd # "?"
     \/ present = "no" /\ mode = "simulate"
  /\ (mode = "fix" /\ upd = "no") => updates = 1
  /\ done' = "ok"
  /\ UNCHANGED <<mode, inter, present, upd, installs, updates>>

Fail ==
  /\ done = "no" /\ present = "no" /\ mode # "simulate"
  /\ mode = "fix" => installs = 1
  /\ done' = "error"
  /\ UNCHANGED <<mode, inter, present, upd, installs, updates>>
==============================================================================
