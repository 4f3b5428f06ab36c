----------------------------- MODULE ManagersTrace ---------------------------
(* Recorded uses of the real installers with stand-in package managers.      *)
EXTENDS Managers, TraceKit

Cfg == Trace[t].cfg
TInit ==
  /\ TKInit
  /\ MInit(Range(Cfg.there), [k \in Managers |-> Range(Cfg.has[k])], Cfg.dir)

Same == UNCHANGED mvars
Additional == {"pip"}
TNext ==
  \/ IsEvent("compose") /\ Same /\ Ev.got = Composed(Ev.kind, Ev.pkgs)
  \/ IsEvent("missing") /\ Same /\ Ev.kind \in Telling
     /\ IF Ev.kind = "pip" /\ "pip" \notin there THEN Ev.fails
        ELSE ~Ev.fails /\ Ev.got = Missing(Ev.kind, Ev.pkgs)
  \/ IsEvent("installed") /\ Same /\ Ev.kind \in Telling
     /\ IF Ev.kind = "pip" /\ "pip" \notin there THEN Ev.fails
        ELSE ~Ev.fails /\ Ev.got = (Missing(Ev.kind, Ev.pkgs) = <<>>)
  \* the others do not know, but never say that a missing package is there
  \/ /\ IsEvent("missing") /\ Same /\ Ev.kind \notin Telling
     /\ ~Ev.fails /\ Ev.got \in Possible(Ev.kind, Ev.pkgs)
  \/ /\ IsEvent("installed") /\ Same /\ Ev.kind \notin Telling
     /\ ~Ev.fails /\ (Ev.got => Missing(Ev.kind, Ev.pkgs) = <<>>)
  \/ IsEvent("there") /\ Same /\ Ev.got = (Ev.kind \in there)
  \/ IsEvent("additional") /\ Same /\ Ev.got = (Ev.kind \in Additional)
  \/ IsEvent("run") /\ Run(Ev.kind, Ev.p) /\ Ev.ok = (Ev.kind \in there)
  \/ IsEvent("put") /\ Put(Ev.kind, Ev.p)
  \/ IsEvent("drop") /\ Drop(Ev.kind, Ev.p)
  \/ IsEvent("lose") /\ Lose(Ev.kind)
  \/ IsEvent("gain") /\ Gain(Ev.kind)
  \/ IsEvent("manager") /\ InstallManager(Ev.kind, Ev.result)
==============================================================================
