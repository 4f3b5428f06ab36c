---------------------------- MODULE SourcesJudge ----------------------------
EXTENDS Sources, JudgeKit

Rng(q) == {q[i] : i \in DOMAIN q}

Defaults(r) ==
  IF ~r.obs.ok THEN "built-in default sources are not used"
  ELSE IF r.obs.sources # r.defaults
       THEN "sources differ from the built-in defaults"
  ELSE "ok"

Dir(r) ==
  LET e == Read(Rng(r.files), r.kinds) IN
  IF r.obs.ok # e.ok
  THEN IF e.ok THEN "valid sources rejected" ELSE "invalid sources accepted"
  ELSE IF e.ok /\ r.obs.sources # e.sources
       THEN "sources or their order differ"
  ELSE IF e.ok /\ Rng(r.obs.reported) # e.reported
       THEN "invalid YAML files are not (exactly) reported"
  ELSE "ok"

Verdict(r) == IF r.exists THEN Dir(r) ELSE Defaults(r)
TNext == TStep(Verdict)
=============================================================================
