------------------------------ MODULE Database ------------------------------
(* Rules sources, their cache entries and the operations of the database.    *)
(*                                                                           *)
(* A state is a record                                                       *)
(*   mem   : database object -> source -> what the object holds in memory    *)
(*   cache : source -> content of the cache entry                            *)
(*   env   : source -> what loading from the source gives at the moment      *)
(* Operations are functions from a state (and what happened around it: the   *)
(* load times) to the outcome; Next-state relations use them.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* in memory: data, args, origin are opaque tokens, time an instant
Unloaded(args, origin) ==
  [data |-> "none", args |-> args, origin |-> origin, time |-> -1]

\* cache entries.  "none": no entry; "junk": unreadable or structurally
\* incomplete; "other": entry of another kind of source; "invalid": complete,
\* but the rules are invalid; "dir": something that is not a file is in the
\* way; "ok": usable.
NoEntry == [k |-> "none"]
Entry(m) == [k |-> "ok", data |-> m.data, args |-> m.args,
             origin |-> m.origin, time |-> m.time]
Usable(c) == c.k = "ok"
Available(c) == c.k \notin {"none", "dir"}

\* what the source gives: "ok" data that verifies; "unsavable" data that
\* verifies but cannot be written to the cache; "invalid" data; "fail"
Loads(e) == e.k \in {"ok", "unsavable"}
Savable(d) == d.k = "ok"

Out(st, ok, failed, loads) ==
  [st |-> st, ok |-> ok, failed |-> failed, loads |-> loads]

\* ---- one source -----------------------------------------------------------
LoadSource(st, d, s, time) ==
  LET e == st.env[s] IN
  IF Loads(e)
  THEN Out([st EXCEPT !.mem[d][s].data = e.data,
                      !.mem[d][s].time = time], TRUE, {}, <<s>>)
  ELSE Out(st, FALSE, {s}, <<s>>)

LoadCache(st, d, s) ==
  LET c == st.cache[s] IN
  IF Usable(c)
  THEN Out([st EXCEPT !.mem[d][s] =
             [data |-> c.data, args |-> c.args, origin |-> c.origin,
              time |-> c.time]], TRUE, {}, <<>>)
  ELSE Out(st, FALSE, {s}, <<>>)

\* unsav: the data (tokens) that cannot be written
Save(st, d, s, unsav) ==
  IF st.cache[s].k = "dir" \/ st.mem[d][s].data \in unsav
  THEN Out(st, FALSE, {s}, <<>>)
  ELSE Out([st EXCEPT !.cache[s] = Entry(st.mem[d][s])], TRUE, {}, <<>>)

Clear(st, s) == Out([st EXCEPT !.cache[s] = NoEntry], TRUE, {}, <<>>)

\* load and, if that works, save
UpdateSource(st, d, s, time, unsav) ==
  LET a == LoadSource(st, d, s, time) IN
  IF ~a.ok THEN a
  ELSE LET b == Save(a.st, d, s, unsav)
       IN Out(b.st, b.ok, b.failed, a.loads)

\* ---- the database: all sources in order -----------------------------------
\* times[s] is the instant at which source s was loaded
One(op, st, d, s, times, unsav) ==
  CASE op = "load" -> LoadSource(st, d, s, times[s])
    [] op = "loadcache" -> LoadCache(st, d, s)
    [] op = "save" -> Save(st, d, s, unsav)
    [] op = "update" -> UpdateSource(st, d, s, times[s], unsav)

RECURSIVE All(_, _, _, _, _, _, _)
All(op, st, d, strict, times, unsav, s) ==
  IF s > Len(st.env) THEN Out(st, TRUE, {}, <<>>)
  ELSE LET a == One(op, st, d, s, times, unsav) IN
       IF ~a.ok /\ strict THEN a
       ELSE LET r == All(op, a.st, d, strict, times, unsav, s + 1)
            IN Out(r.st, r.ok, a.failed \cup r.failed, a.loads \o r.loads)

Db(op, st, d, strict, times, unsav) == All(op, st, d, strict, times, unsav, 1)

\* ---- asking ----------------------------------------------------------------
\* the answers allowed; says(data): what the kind of source answers
Outdated(st, s, says(_)) ==
  LET c == st.cache[s] IN
  IF c.k \in {"none", "dir", "other", "junk"} THEN {TRUE}
  ELSE IF c.k = "invalid" THEN BOOLEAN
  ELSE {says(c)}
=============================================================================
