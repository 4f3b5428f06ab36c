----------------------------- MODULE CommandsJudge ---------------------------
EXTENDS Commands, JudgeKit

Verdict(r) ==
  CASE r.op = "line" ->
         LET o == Outcome(r.eps, r.ln)
             main == r.ln.cmd = "" \/ r.ln.cmd \notin Usable(r.eps)
         IN IF r.saw.exit # o.exit THEN "exit status"
            ELSE IF r.saw.ran # (IF o.ran = 0 THEN <<>> ELSE <<o.ran>>)
                 THEN "the command that is run"
            ELSE IF o.ran # 0 /\ (r.saw.x # o.x \/ r.saw.keys # o.keys) THEN "arguments"
            ELSE IF o.ran # 0 /\ r.saw.opt # o.opt THEN "configuration item of the command"
            ELSE IF o.message /\ ~r.saw.message THEN "the error is not shown"
            ELSE IF o.ran # 0 /\ ~r.ln.alone /\ r.saw.trace /\ ~(o.message /\ r.ln.debug)
                 THEN "a traceback is shown"
            ELSE IF o.exit = 2 /\ ~r.saw.usage THEN "usage is not shown"
            ELSE IF r.ln.help /\ main /\ Range(r.saw.offered) # Offered(r.eps)
                    /\ o.exit = 0 THEN "commands that are offered"
            ELSE IF r.ln.help /\ ~main /\ ~r.saw.about THEN "help of the command"
            ELSE IF ~r.ln.alone /\ ~ReportedRight(r.eps, Range(r.saw.reported))
                 THEN "commands that are reported as of no use"
            ELSE "ok"
    [] r.op = "same" -> IF r.one = r.two THEN "ok" ELSE "the program of a command differs"
TNext == TStep(Verdict)
==============================================================================
