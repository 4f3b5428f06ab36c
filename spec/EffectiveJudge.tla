---------------------------- MODULE EffectiveJudge ---------------------------
(* Recorded runs with and without printing the configuration.                *)
EXTENDS Effective, JudgeKit

Agree(c, x) == x # <<>> /\ Same(c[2], x[1])
Verdict(r) ==
  CASE r.op = "print" ->
         LET p == Final(r.w, TRUE)
             q == Final(r.w, FALSE)
         IN IF r.changed THEN "printing the configuration changed files"
            ELSE IF r.ran THEN "printing the configuration ran the command"
            ELSE IF p.phase = "rejected"
            THEN IF r.code = 0 \/ r.printed # <<>>
                 THEN "a configuration that is not valid is printed"
                 ELSE IF r.used # <<>> THEN "a configuration that is not valid is used"
                 ELSE "ok"
            ELSE IF r.code # 0 THEN "printing does not succeed"
            ELSE IF ~Agree(q.config, r.used) THEN "the configuration of the run"
            ELSE IF ~Agree(p.config, r.printed) THEN "the configuration that is printed"
            ELSE "ok"
    [] r.op = "again" ->
         IF r.one # <<>> /\ r.two # <<>> /\ Same(r.one[1], r.two[1]) THEN "ok"
         ELSE "a printed configuration, read again, is another one"
    [] OTHER -> "unknown record"
TNext == TStep(Verdict)
==============================================================================
