----------------------------- MODULE OverrideJudge ---------------------------
(* Recorded parses and configurations.                                       *)
EXTENDS Override, JudgeKit

WsOfTrace == {Trace[1].ws[k] : k \in DOMAIN Trace[1].ws}

Verdict(r) ==
  LET p == Parse(r.text) IN
  IF r.error # "" THEN "the text is rejected"
  ELSE IF r.name # p.name THEN "name"
  ELSE IF r.version # p.version THEN "version"
  ELSE IF r.op = "parse" THEN IF r.features = p.features THEN "ok" ELSE "features"
  ELSE IF r.features = InForce(p, r.configured) THEN "ok" ELSE "features in force"
TNext == TStep(Verdict)
==============================================================================
