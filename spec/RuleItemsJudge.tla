---------------------------- MODULE RuleItemsJudge ---------------------------
(* Recorded resolutions of rules, and comparisons of items.                  *)
EXTENDS RuleItems, JudgeKit

Rejected(got) == got[1] = "err" /\ "InvalidRuleError" \in Range(got[2])
SameSeq(a, b) == Len(a) = Len(b) /\ \A n \in DOMAIN a : Same(a[n], b[n])
Check(exp, got, what) ==
  IF IsOk(exp)
  THEN IF ~IsOk(got) THEN what \o ": a valid rule is rejected"
       ELSE IF SameSeq(exp[2], got[2]) THEN "ok" ELSE what \o ": wrong"
  ELSE IF Rejected(got) THEN "ok" ELSE what \o ": an invalid rule is not rejected as such"

RECURSIVE Spaced(_)
Spaced(ws) == IF Len(ws) = 0 THEN "" ELSE IF Len(ws) = 1 THEN ws[1]
              ELSE ws[1] \o " " \o Spaced(Tail(ws))
Both(a, b) == IF a = "ok" THEN b ELSE a
Verdict(r) ==
  CASE r.op = "rule" ->
         Both(Check(Items(r.desc, r.rule, r.env), r.items, "items"),
         Both(Check(Depends(r.desc, r.rule, r.env), r.depends, "dependencies"),
         Both(IF Same(r.rule, r.after) THEN "ok" ELSE "the rule was modified",
         Both(Check(Items(r.desc, r.rule, r.env), r.again, "items after others were changed"),
              IF ~IsOk(r.items) \/ r.texts = [n \in DOMAIN r.items[2] |->
                    LET p == Get(r.items[2][n], "package") IN
                    IF p = Null THEN r.texts[n] ELSE p[2]]
              THEN "ok" ELSE "printed differently"))))
    [] r.op = "eq" ->
         IF r.eq # Same(r.a, r.b) THEN "equality"
         ELSE IF r.ne = r.eq THEN "inequality"
         ELSE IF r.eq /\ ~r.hash THEN "equal items, different hashes"
         ELSE "ok"
    [] r.op = "show" ->
         IF r.words # Shown(r.item, r.keys) THEN "the words of an item"
         ELSE IF r.text # Spaced(r.words) THEN "an item as text"
         ELSE "ok"
    [] r.op = "dedup" ->
         IF SameSeq(r.out, r.expected) THEN "ok" ELSE "duplicates"
TNext == TStep(Verdict)
==============================================================================
