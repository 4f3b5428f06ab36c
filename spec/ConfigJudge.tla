----------------------------- MODULE ConfigJudge -----------------------------
(* Recorded conversions, loads and derived directories.                      *)
EXTENDS Config, JudgeKit

Out(exp, got, what) ==
  IF IsOk(exp)
  THEN IF ~IsOk(got) THEN what \o ": a valid configuration is rejected"
       ELSE IF Same(exp[2], got[2]) THEN "ok" ELSE what \o ": wrong value"
  ELSE IF IsOk(got) THEN what \o ": an invalid value is accepted"
       ELSE IF "ConfigError" \in Range(got[2]) THEN "ok"
       ELSE what \o ": rejected, but not with a configuration error"

Whole(desc, layers) ==
  LET m == MergeAll(desc, layers) IN IF IsOk(m) THEN Ok(AsValue(desc, m[2])) ELSE Err

Verdict(r) ==
  CASE r.op = "data" ->
         Out(Whole(r.desc, IF r.defaults
                           THEN <<DataLayer(r.desc, r.data, r.env), DefaultLayer(r.desc)>>
                           ELSE <<DataLayer(r.desc, r.data, r.env)>>), r.got, "dictionary")
    [] r.op = "file" ->
         Out(Whole(r.desc, <<FileLayer(r.desc, r.file, r.env)>>), r.got, "file")
    [] r.op = "args" ->
         Out(Whole(r.desc, <<ArgsLayer(r.desc, r.given, r.env)>>), r.got, "command line")
    [] r.op = "load" ->
         Out(Whole(r.desc, Layers(r.desc, r.given, r.files, r.which, r.env)), r.got, "layers")
    [] r.op = "verify" ->
         IF ~Same(r.value, r.after) THEN "checking a value changed it"
         ELSE Out(IF Typed(r.type, r.value) THEN Ok(r.value) ELSE Err, r.got, "value")
    [] r.op = "merge" ->
         IF ~Same(r.top, r.after[1]) \/ ~Same(r.bottom, r.after[2])
         THEN "merging changed what was merged"
         ELSE Out(Ok(Merge(r.type, r.top, r.bottom)), r.got, "merged value")
    [] r.op = "dirs" ->
         IF r.got.cache # PathText(CacheDir(r.a, r.set, r.home, r.cwd)) THEN "cache directory"
         ELSE IF r.got.sources # PathText(SourcesDir(r.a, r.set, r.home, r.cwd)) THEN "sources directory"
         ELSE "ok"
    [] r.op = "same" -> IF r.a = r.b THEN "ok" ELSE r.what
TNext == TStep(Verdict)
=============================================================================
