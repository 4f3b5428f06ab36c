--------------------------- MODULE DatabaseTrace ----------------------------
(* Is a recorded history of database operations one of the specification?    *)
(* Each event carries what the operation did (raised, reported, loads), the  *)
(* memory of all database objects afterwards, and what a fresh reader finds  *)
(* in every cache entry afterwards.                                          *)
EXTENDS Database, TraceKit

VARIABLE st

Rng(q) == {q[i] : i \in DOMAIN q}
N == Len(Trace[t].init.env)

DTInit == TKInit /\ st = Trace[t].init

Says(c) == c.data \in Rng(Trace[t].outdated)
Unsav == Rng(Trace[t].unsavable)

Time(d, s) == Ev.mem[d][s].time
Times(d) == [s \in 1..N |-> Time(d, s)]
\* the load times as observed must lie within the operation
TimesOk(d, out) ==
  \A s \in Rng(out.loads) : Loads(st.env[s]) =>
    Ev.t0 <= Time(d, s) /\ Time(d, s) <= Ev.t1

\* what a fresh reader must find
ReadsAs(c, r) ==
  /\ r.available = Available(c)
  /\ IF Usable(c)
     THEN r = [ok |-> TRUE, available |-> TRUE, data |-> c.data,
               args |-> c.args, origin |-> c.origin, time |-> c.time]
     ELSE ~r.ok

Matches(new) ==
  /\ st' = new
  /\ Ev.mem = new.mem
  /\ \A s \in 1..N : ReadsAs(new.cache[s], Ev.probe[s])

\* ---- the environment ---------------------------------------------------------
SetEnv == IsEvent("env") /\ st' = [st EXCEPT !.env[Ev.s] = Ev.to]
SetCache == IsEvent("cache") /\ Matches([st EXCEPT !.cache[Ev.s] = Ev.to])

\* ---- operations ---------------------------------------------------------------
Outcome(out, d) ==
  /\ Ev.raised = ~out.ok
  /\ Matches(out.st)
  /\ TimesOk(d, out)

SourceLoad == IsEvent("source_load") /\
  Outcome(LoadSource(st, Ev.d, Ev.s, Time(Ev.d, Ev.s)), Ev.d)
SourceLoadCache == IsEvent("source_loadcache") /\
  Outcome(LoadCache(st, Ev.d, Ev.s), Ev.d)
SourceSave == IsEvent("source_save") /\
  Outcome(Save(st, Ev.d, Ev.s, Unsav), Ev.d)
SourceClear == IsEvent("source_clear") /\
  Outcome(Clear(st, Ev.s), Ev.d)

DbOp(op, name) == IsEvent(name) /\
  LET out == Db(op, st, Ev.d, Ev.strict, Times(Ev.d), Unsav) IN
  /\ Outcome(out, Ev.d)
  /\ Ev.loads = out.loads
  /\ ~Ev.strict => Rng(Ev.reported) = out.failed

\* the update command: a fresh database object, errors tolerated
\* (what it holds in memory is not observable)
ApiUpdate == IsEvent("api_update") /\
  LET fresh == [st EXCEPT !.mem[Ev.d] =
                 [s \in 1..N |-> Unloaded(Trace[t].init.mem[Ev.d][s].args,
                                          Trace[t].init.mem[Ev.d][s].origin)]]
      times == [s \in 1..N |-> IF Ev.probe[s].ok THEN Ev.probe[s].time ELSE -1]
      out == Db("update", fresh, Ev.d, FALSE, times, Unsav)
  IN /\ ~Ev.raised
     /\ Matches([out.st EXCEPT !.mem = st.mem])
     /\ Ev.loads = out.loads
     /\ Rng(Ev.reported) = out.failed
     /\ \A s \in 1..N : s \notin out.failed =>
          Ev.t0 <= times[s] /\ times[s] <= Ev.t1

\* a dry run loads everything, reports the same, and leaves no trace
DryUpdate == IsEvent("dry_update") /\
  LET out == Db("load", st, Ev.d, FALSE, Times(Ev.d), Unsav) IN
  /\ ~Ev.raised
  /\ Ev.files_unchanged
  /\ Matches(st)
  /\ Ev.loads = out.loads
  /\ Rng(Ev.reported) = out.failed

AskOutdated == IsEvent("ask_outdated") /\
  /\ ~Ev.raised
  /\ Ev.answer \in Outdated(st, Ev.s, Says)
  /\ Matches(st)

\* sources whose identities repeat, whatever their kinds, are rejected; others
\* have cache entries of their own
Identities == IsEvent("identities") /\ UNCHANGED st /\
  LET Inj(q) == Cardinality(Rng(q)) = Len(q) IN
  /\ Ev.ok = Inj(Ev.ids)
  /\ Ev.ok => Len(Ev.paths) = Len(Ev.ids) /\ Inj(Ev.paths)

TNext == \/ SetEnv \/ SetCache \/ SourceLoad \/ SourceLoadCache
         \/ SourceSave \/ SourceClear
         \/ DbOp("load", "db_load") \/ DbOp("loadcache", "db_loadcache")
         \/ DbOp("save", "db_save") \/ DbOp("update", "db_update")
         \/ ApiUpdate \/ DryUpdate \/ AskOutdated \/ Identities

TInit == DTInit
=============================================================================
