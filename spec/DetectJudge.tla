----------------------------- MODULE DetectJudge -----------------------------
(* What real detectors and OS plugins say about real files and programs.     *)
EXTENDS Detect, JudgeKit

Verdict(r) ==
  CASE r.op = "detector" ->
         IF r.is # Is(r.kind, r.m) THEN "is_os"
         ELSE IF r.version # Version(r.kind, r.m) THEN "version"
         ELSE IF r.codename # Codename(r.kind, r.m) THEN "codename"
         ELSE "ok"
    [] r.op = "plugin" ->
         IF r.is # PluginIs(r.plugin, r.m) THEN "plugin: is_os"
         ELSE IF r.version # PluginVersion(r.plugin, r.m) THEN "plugin: version"
         ELSE IF r.tuple # (IF PluginVersion(r.plugin, r.m) = <<>> THEN <<>>
                            ELSE << <<r.plugin, PluginVersion(r.plugin, r.m)[1]>> >>)
              THEN "plugin: tuple"
         ELSE "ok"
    [] r.op = "current" ->
         LET ps == {p \in {"debian", "ubuntu", "xubuntu", "osx"} : PluginIs(p, r.m)}
         IN IF ps = {} /\ r.got = <<>> THEN "ok"
            ELSE IF \E p \in ps : r.got = <<p>> THEN "ok"
            ELSE "detected OS"
JInit == TInit /\ DInit
TNext == TStep(Verdict) /\ UNCHANGED dvars
==============================================================================
