---------------------------- MODULE ContextTrace -----------------------------
(* Recorded histories of one installer context.                              *)
EXTENDS Context, TraceKit

VARIABLES options    \* name of a loaded installer -> its options (values)

P == Trace[t].plugins
ByName(i) == P[CHOOSE n \in DOMAIN P : P[n].name = i]

TInit == TKInit /\ options = [i \in Names(P) |-> DefaultLayer(ByName(i).desc)[2]]

Looks ==    \* finding installers by name, and their options
  /\ \A n \in DOMAIN Ev.lookup :
        LET q == Ev.lookup[n] IN q.found = (q.name \in Names(P)) /\ (q.found => q.right)
  /\ \A n \in DOMAIN P :
        Same(Ev.options[n], AsValue(P[n].desc, options'[P[n].name]))
  /\ Ev.plugin_names = [n \in DOMAIN P |-> P[n].name]

NoDups(q) == Cardinality(Range(q)) = Len(q)

SetUp == IsEvent("setup") /\
  /\ options' = [i \in Names(P) |-> OptionsOf(Ev.cfg, ByName(i), Ev.env)[2]]
  /\ Ev.core = CoreNames(Ev.cfg, P, Ev.oscore)
  /\ Range(Ev.additional) = Additional(Ev.cfg, P, Ev.oscore, Ev.tuple)
  /\ NoDups(Ev.additional)
  /\ Ev.names = Ev.core \o Ev.additional
  /\ Ev.same
  /\ Looks

\* options of one installer are changed directly
SetOptions == IsEvent("options") /\
  /\ options' = [options EXCEPT ![Ev.name] =
        MergeAll(ByName(Ev.name).desc,
                 <<DataLayer(ByName(Ev.name).desc, Ev.data, Ev.env),
                   DefaultLayer(ByName(Ev.name).desc)>>)[2]]
  /\ Looks

TNext == SetUp \/ SetOptions
==============================================================================
