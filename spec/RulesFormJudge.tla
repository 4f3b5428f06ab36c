--------------------------- MODULE RulesFormJudge ---------------------------
EXTENDS RulesForm, JudgeKit

ExpandV(r) ==
  LET exp == ExpandRules(r.doc) IN
    CASE r.obs[1] = "ok" ->
           IF exp = Err THEN "an invalid form is accepted by the expansion"
           ELSE IF r.obs[2] # exp THEN "wrong expansion"
           ELSE IF r.obs[3] # exp THEN "expanding expanded rules changes them"
           ELSE "ok"
      [] r.obs[1] = "parsing-error" ->
           IF exp # Err THEN "a documented form is rejected"
           ELSE IF ~IsDict(r.doc) THEN "value error expected for a rule set that is not a mapping"
           ELSE IF \A k \in BadKeys(r.doc) : \A n \in 1..Len(r.obs[2]) : r.obs[2][n] # k
                THEN "the parsing error does not name the offending key"
           ELSE "ok"
      [] r.obs[1] = "value-error" ->
           IF exp # Err THEN "a documented form is rejected"
           ELSE IF IsDict(r.doc) THEN "parsing error expected instead of value error"
           ELSE "ok"
      [] OTHER -> "expansion ends with an unexpected error"

VerifyV(r) ==
  IF OddAnyOs(r.doc) THEN (IF r.obs[1] \in {"ok", "value-error"} THEN "ok"
                           ELSE "verification ends with an unexpected error")
  ELSE CASE r.obs[1] = "ok" -> IF ~WellFormed(r.doc, r.ph) THEN "malformed rules are accepted"
                               ELSE IF ~r.unchanged THEN "verification changes the rules" ELSE "ok"
         [] r.obs[1] = "value-error" ->
                IF WellFormed(r.doc, r.ph) THEN "well-formed rules are rejected"
                ELSE IF ~r.unchanged THEN "verification changes the rules" ELSE "ok"
         [] OTHER -> "verification ends with an unexpected error"

\* data in memory after loading doc from a source or from the cache, when
\* there was old data before
LoadV(r) ==
  LET good == IF r.via = "source" THEN Usable(r.doc) ELSE WellFormed(r.doc, TRUE)
      want == IF r.via = "source" THEN ExpandRules(r.doc) ELSE r.doc
      odd == OddAnyOs(want)
  IN IF odd THEN "ok"
     ELSE IF good THEN
       (IF r.raised THEN "valid rules are not loaded"
        ELSE IF r.data # want THEN "loaded rules are not the expanded rules"
        ELSE "ok")
     ELSE (IF r.data # r.old THEN "malformed rules are used"
           ELSE IF r.strict /\ ~r.raised THEN "loading malformed rules does not fail"
           ELSE IF ~r.strict /\ r.raised THEN "loading fails although errors are tolerated"
           ELSE "ok")

CompactV(r) ==
  LET amb == Ambiguous(r.doc, r.table) IN
    CASE r.obs[1] = "ok" ->
           IF amb THEN "compaction drops one of two conflicting rules"
           ELSE IF ExpandRules(r.obs[2]) = Err THEN "compacted rules do not expand"
           ELSE LET e == ExpandRules(r.obs[2]) IN
             IF ~WellFormed(e, TRUE) THEN "compacted rules are malformed"
             ELSE IF ~SameMeaning(Plain(r.doc), Plain(e), r.table)
             THEN "compacted rules have another meaning"
             ELSE "ok"
      [] r.obs[1] = "exc" -> IF amb THEN "ok" ELSE "compacting valid rules fails"
      [] OTHER -> "compacting does not give rules"

Verdict(r) ==
  CASE r.kind = "expand" -> ExpandV(r)
    [] r.kind = "verify" -> VerifyV(r)
    [] r.kind = "load" -> LoadV(r)
    [] r.kind = "compact" -> CompactV(r)

TNext == TStep(Verdict)
=============================================================================
