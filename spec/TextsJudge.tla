------------------------------ MODULE TextsJudge -----------------------------
EXTENDS Texts, JudgeKit

\* a text that is repeated so many times
Bulk(bytes, times) == <<IF times = 0 THEN <<>> ELSE Decode(bytes), times>>

Verdict(r) ==
  IF r.error # "" THEN "unexpected error"
  ELSE CASE r.op = "text" -> IF r.got = AsText(r.o) THEN "ok" ELSE "text of an object"
    [] r.op = "latin" -> IF r.got = r.o.bytes THEN "ok" ELSE "text in another encoding"
    [] r.op = "bytes" -> IF r.got = AsBytes(r.o) THEN "ok" ELSE "bytes of an object"
    [] r.op = "indent" -> IF r.got = Indent(r.text, r.width, r.by, r.exclude)
                          THEN "ok" ELSE "indented text"
    [] r.op = "unique" -> IF r.got = NoDuplicates(r.items) THEN "ok" ELSE "duplicates"
    [] r.op = "stdout" -> IF r.got = Decode(r.p.out) THEN "ok" ELSE "output of a program"
    [] r.op = "run" -> IF r.got = Ran(r.p) THEN "ok" ELSE "outcome of a program"
    [] r.op = "bulk" ->
         IF r.got = Bulk(r.p.out, r.p.t_out) THEN "ok" ELSE "long output of a program"
    [] r.op = "bulkrun" ->
         IF r.got = <<Bulk(r.p.out, r.p.t_out), Bulk(r.p.err, r.p.t_err), r.p.code>>
         THEN "ok" ELSE "long outcome of a program"
    [] r.op = "installed" -> IF r.got = r.p.runs THEN "ok" ELSE "is the program installed"
TNext == TStep(Verdict)
==============================================================================
