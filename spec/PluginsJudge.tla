----------------------------- MODULE PluginsJudge ----------------------------
(* What real calls loaded, as the classes of the objects, with their names.  *)
EXTENDS Plugins, JudgeKit

Rng(s) == {s[k] : k \in DOMAIN s}
Verdict(r) ==
  LET exp == IF r.base THEN Loaded(r.entries, r.kind, Rng(r.disabled)) ELSE <<>>
  IN IF r.error # "" THEN "loading fails"
     ELSE IF [k \in DOMAIN exp |-> r.entries[exp[k]].cls] # r.got THEN "loaded"
     ELSE IF [k \in DOMAIN exp |-> r.entries[exp[k]].oname] # r.names THEN "names"
     ELSE IF ~r.distinct THEN "an object is returned twice"
     ELSE "ok"
TNext == TStep(Verdict)
==============================================================================
