--------------------------- MODULE InstalledJudge ---------------------------
(* Detection of installed packages, and simulated against real runs.         *)
EXTENDS JudgeKit

Rng(q) == {q[i] : i \in DOMAIN q}

Verdict(r) ==
  CASE r.op = "installed" ->
         IF r.got = <<Rng(r.asked) \cap Rng(r.missing) = {}>> THEN "ok"
         ELSE "wrong answer about what is installed"
    [] r.op = "pair" ->
         IF r.executed = r.announced THEN "ok"
         ELSE "the simulation announces other commands than the real run executes"
TNext == TStep(Verdict)
=============================================================================
