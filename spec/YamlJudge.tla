------------------------------- MODULE YamlJudge -----------------------------
(* Recorded documents that were written and read.                            *)
EXTENDS Yaml, JudgeKit

Verdict(r) ==
  CASE r.op = "dump" ->
         IF r.error # "" THEN "the value cannot be written and read"
         ELSE IF Canon(r.back) # Canon(r.v) THEN "another value is read back"
         ELSE IF Canon(r.after) # Canon(r.v) THEN "writing changes the value"
         ELSE IF Usual(r.v) /\ r.text # Dump(r.v) THEN "the document is not as it should look"
         ELSE "ok"
    [] r.op = "read" ->
         IF r.error # "" THEN "the document is rejected"
         ELSE IF Canon(r.back) # Canon(r.v) THEN "another value is read"
         ELSE "ok"
    [] r.op = "any" ->
         IF r.result \in {"value", "yaml error"} THEN "ok" ELSE "unexpected outcome"
    \* only plain data is created: a tag of another system is no value
    [] r.op = "foreign" ->
         IF r.result = "yaml error" THEN "ok" ELSE "a foreign tag is accepted"
YInit == value = <<"n">> /\ text = "" /\ TInit
TNext == TStep(Verdict) /\ UNCHANGED yvars
==============================================================================
