------------------------------- MODULE PrereqMC ------------------------------
(* The check together with every package manager.                            *)
EXTENDS Prereq, Json

CONSTANT DoEmit

VARIABLES sys   \* [present, upd, install, update, was]: the package manager

Init ==
  /\ \E m \in {"no", "fix", "simulate"}, i \in BOOLEAN : PInit(m, i)
  /\ \E p \in {"yes", "no"}, u \in {"yes", "no", "unsupported"},
        f \in {"works", "useless", "unsupported"},
        g \in {"works", "useless", "unsupported"} :
       sys = [present |-> p, upd |-> u, install |-> f, update |-> g, was |-> p]

Effect(how) == IF how = "unsupported" THEN "unsupported" ELSE "done"
Next ==
  \/ present # sys.present /\ Ask(sys.present) /\ UNCHANGED sys
  \/ /\ Install(inter, Effect(sys.install))
     /\ sys' = IF sys.install = "works" THEN [sys EXCEPT !.present = "yes"] ELSE sys
  \/ upd # sys.upd /\ AskUpdated(sys.upd) /\ UNCHANGED sys
  \/ /\ Update(inter, Effect(sys.update))
     /\ sys' = IF sys.update = "works" THEN [sys EXCEPT !.upd = "yes"] ELSE sys
  \/ Pass /\ UNCHANGED sys
  \/ Fail /\ UNCHANGED sys

Spec == Init /\ [][Next]_<<pvars, sys>> /\ WF_<<pvars, sys>>(Next)

OnlyOnRequest == mode # "fix" => installs = 0 /\ updates = 0
AtMostOnce == installs <= 1 /\ updates <= 1
PassMeansPresent == done = "ok" => mode = "simulate" \/ sys.present = "yes"
FailMeansMissing == done = "error" => sys.present = "no" /\ mode # "simulate"
Attempted == done = "error" /\ mode = "fix" => installs = 1
NotNeeded == sys.was = "yes" => installs = 0
\* the user learns that the package manager is (still) out of date
ToldOutdated == done = "ok" /\ mode # "simulate" =>
  (Told.outdated <=> sys.upd = "no")
Ends == <>(done # "no")
Emit == (DoEmit /\ done = "no" /\ present = "?" /\ installs = 0 /\ upd = "?") =>
  PrintT("@@" \o ToJson([mode |-> mode, inter |-> inter, sys |-> sys]))
==============================================================================
