----------------------------- MODULE CallsTrace ------------------------------
(* Recorded histories of API calls.                                          *)
EXTENDS Calls, TraceKit

VARIABLE st

W == Trace[t].w
TInit == TKInit /\ st = [
  rules |-> W.rules,
  cache |-> [d \in RangeOf(W.cdirs) |-> [f \in DOMAIN W.rules |-> <<>>]],
  glob |-> W.glob, sctxs |-> <<>>, ictxs |-> <<>>, dbs |-> <<>>, of |-> <<>>, have |-> {}]

\* the caller's configurations and contexts, and the global configuration,
\* are what they were
Untouched == Ev.untouched

Call == IsEvent("call") /\ Untouched /\
  LET a == Ev.a
      ans == Answers(W, st, a)
      s == After(W, st, a)
  IN /\ Ev.kind = ans.kind
     /\ ans.kind = "ok" =>
          IF a.call = "lookup" THEN RangeOf(Ev.found) = ans.v
          ELSE IF a.call = "update" THEN TRUE
          ELSE Ev.good = ans.v.good /\ Ev.lost = ans.v.lost
     /\ Ev.ran = Runs(W, st, a)
     \* nothing else of the cache directories changes
     /\ \A d \in DOMAIN s.cache :
          Ev.caches[d] = Cardinality({f \in DOMAIN s.cache[d] : s.cache[d][f] # <<>>})
     /\ RangeOf(Ev.have) = s.have
     /\ st' = s
Global == IsEvent("global") /\ Untouched /\ st' = SetGlobal(st, Ev.n)
EditFile == IsEvent("edit") /\ st' = Edit(st, Ev.f, Ev.rules)
SContext == /\ IsEvent("sctx") /\ Untouched
            /\ Ev.dirs = SourcesIn(Conf(W, st, Ev.cfg))
            /\ st' = NewSCtx(W, st, Ev.cfg)
IContext == IsEvent("ictx") /\ Untouched /\ st' = NewICtx(W, st, Ev.cfg)
Database == /\ IsEvent("db") /\ Untouched
            /\ Ev.made = NewDbOk(W, st, Ev.n, Ev.how)
            /\ st' = NewDb(W, st, Ev.n, Ev.how)
\* (a database reports errors of its sources; here there are none)
Again == /\ IsEvent("reload") /\ Untouched /\ Ev.made
         /\ ReloadOk(W, st, Ev.n, Ev.how)
         /\ LET s == Reload(W, st, Ev.n, Ev.how) IN
            /\ \A d \in DOMAIN s.cache :
                 Ev.caches[d] = Cardinality({f \in DOMAIN s.cache[d] : s.cache[d][f] # <<>>})
            /\ st' = s
TNext == Again \/ Call \/ Global \/ EditFile \/ SContext \/ IContext \/ Database
==============================================================================
