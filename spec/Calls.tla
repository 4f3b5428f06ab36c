-------------------------------- MODULE Calls --------------------------------
(* The Python API as a history of calls in one process.                      *)
(*                                                                           *)
(* A configuration is [src, cdir, os, core, idir, from]: which sources and   *)
(* cache directories it names, the OS (override), the core installers, the   *)
(* directory the fake installer installs to, and which keys to install from  *)
(* which installer.  A sources context is [src, cdir], an installer context  *)
(* [os, core, idir], a database a sequence of rules (one per source).        *)
(* Every call may be given a configuration ("none": the global one, "dict":  *)
(* plain data, "parsed", or something of another type), and any of these     *)
(* contexts; what is not given is made from the configuration.               *)
(*                                                                           *)
(* World: dirs (sources directory -> sequence of files), keys (all keys in   *)
(* their order), configs.  State st: rules (file -> rules in it),            *)
(* cache (cache directory -> file -> <<>> or <<rules>>), glob (number of the *)
(* configuration that is the global one), sctxs, ictxs, dbs (sequences), of  *)
(* (the sources context of each database), and                               *)
(* have (what is installed: a set of <<place, package>>).                    *)
(* Rules: a sequence of [key, os, inst, pkg].                                *)
(* A directory may also be "default": what a configuration that names none   *)
(* has, whatever the global one names (it is never updated here).            *)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(q) == {q[n] : n \in DOMAIN q}
NoArg == [kind |-> "none", n |-> 0]

Conf(w, st, arg) == w.configs[IF arg.kind = "none" THEN st.glob ELSE arg.n]
SourcesIn(c) == [src |-> c.src, cdir |-> c.cdir]
InstallersIn(c) == [os |-> c.os, core |-> c.core, idir |-> c.idir]
SCtx(w, st, a) == IF a.sctx.kind = "given" THEN st.sctxs[a.sctx.n]
                  ELSE SourcesIn(Conf(w, st, a.cfg))
ICtx(w, st, a) == IF a.ictx.kind = "given" THEN st.ictxs[a.ictx.n]
                  ELSE InstallersIn(Conf(w, st, a.cfg))

\* what the sources of context s are in the cache, and in the files
AllCached(w, st, s) == \A n \in DOMAIN w.dirs[s.src] :
                          st.cache[s.cdir][w.dirs[s.src][n]] # <<>>
Cached(w, st, s) == [n \in DOMAIN w.dirs[s.src] |->
                       st.cache[s.cdir][w.dirs[s.src][n]][1]]
Current(w, st, s) == [n \in DOMAIN w.dirs[s.src] |-> st.rules[w.dirs[s.src][n]]]

\* ---- looking up and resolving
Has(rules, k, os, i) == \E n \in DOMAIN rules :
  rules[n].key = k /\ rules[n].os = os /\ rules[n].inst = i
Pkg(rules, k, os, i) == rules[CHOOSE n \in DOMAIN rules :
  rules[n].key = k /\ rules[n].os = os /\ rules[n].inst = i].pkg
Insts == {"fake", "pip"}
Rule(db, k, os, i) ==    \* <<>> or <<package>>: that of the first source with one
  LET F == {n \in DOMAIN db : Has(db[n], k, os, i)}
  IN IF F = {} THEN <<>>
     ELSE <<Pkg(db[CHOOSE n \in F : \A m \in F : n <= m], k, os, i)>>
Lookup(db, k, os) == {<<i, Rule(db, k, os, i)[1]>> :
                       i \in {j \in Insts : Rule(db, k, os, j) # <<>>}}
KeysOf(w, db, os) == SelectSeq(w.keys, LAMBDA k : Lookup(db, k, os) # {})

Pins(c, k) == {n \in DOMAIN c.from : k \in RangeOf(c.from[n].keys)}
Choice(c, ic, db, k) ==   \* <<>> or <<installer, package>>
  LET has == {i \in Insts : Rule(db, k, ic.os, i) # <<>>}
      use == IF Pins(c, k) # {}
             THEN LET i == c.from[CHOOSE n \in Pins(c, k) : TRUE].inst
                  IN IF i \in has THEN <<i>> ELSE <<>>
             ELSE SelectSeq(ic.core, LAMBDA i : i \in has)
  IN IF use = <<>> THEN <<>> ELSE <<use[1], Rule(db, k, ic.os, use[1])[1]>>

Without(q, S) == SelectSeq(q, LAMBDA k : k \notin S)
RECURSIVE NoDup(_)
NoDup(q) == IF q = <<>> THEN <<>>
            ELSE <<Head(q)>> \o NoDup(Without(Tail(q), {Head(q)}))
Wanted(w, db, ic, a) ==
  NoDup(a.keys \o (IF a.all THEN KeysOf(w, db, ic.os) ELSE <<>>))

Bad(a) == \/ a.cfg.kind = "bad" \/ a.ictx.kind = "bad"
          \/ a.sctx.kind = "bad" /\ a.db = 0
Db(w, st, a) ==    \* <<>> where the cache is incomplete
  IF a.db # 0 THEN <<st.dbs[a.db]>>
  ELSE IF AllCached(w, st, SCtx(w, st, a))
       THEN <<Cached(w, st, SCtx(w, st, a))>> ELSE <<>>

Resolved(w, st, a) ==
  LET db == Db(w, st, a)[1]
      c == Conf(w, st, a.cfg)
      ic == ICtx(w, st, a)
      keys == Wanted(w, db, ic, a)
      good == SelectSeq(keys, LAMBDA k : Choice(c, ic, db, k) # <<>>)
  IN [good |-> [n \in DOMAIN good |-> <<good[n]>> \o Choice(c, ic, db, good[n])],
      lost |-> Without(keys, RangeOf(good))]

Nothing == [good |-> <<>>, lost |-> <<>>]
Answer(kind, v) == [kind |-> kind, v |-> v]

\* ---- the calls: what they answer
Place(ic, i) == IF i = "fake" THEN ic.idir ELSE i
ToInstall(st, ic, a, good) ==
  SelectSeq(good, LAMBDA g : a.again \/ <<Place(ic, g[2]), g[3]>> \notin st.have)

Answers(w, st, a) ==
  CASE a.call \in {"resolve", "install"} ->
         IF Bad(a) THEN Answer("ValueError", Nothing)
         ELSE IF Db(w, st, a) = <<>> THEN Answer("fails", Nothing)
         ELSE IF a.call = "resolve" THEN Answer("ok", Resolved(w, st, a))
         ELSE Answer("ok", [Resolved(w, st, a) EXCEPT !.good = <<>>])
    [] a.call = "lookup" ->
         IF Bad(a) THEN Answer("ValueError", {})
         ELSE IF ~AllCached(w, st, SCtx(w, st, a)) THEN Answer("fails", {})
         ELSE Answer("ok", Lookup(Cached(w, st, SCtx(w, st, a)), a.keys[1],
                                  ICtx(w, st, a).os))
    [] a.call = "update" ->
         IF Bad(a) THEN Answer("ValueError", Nothing) ELSE Answer("ok", Nothing)

\* what runs: sequence of <<installer, package>>
Runs(w, st, a) ==
  IF a.call # "install" \/ Answers(w, st, a).kind # "ok" \/ a.simulate THEN <<>>
  ELSE LET r == Resolved(w, st, a)
           q == ToInstall(st, ICtx(w, st, a), a, r.good)
       IN IF r.lost # <<>> /\ ~a.go_on THEN <<>>
          ELSE [n \in DOMAIN q |-> <<q[n][2], q[n][3]>>]

\* ---- and what they change
After(w, st, a) ==
  CASE a.call = "update" /\ Answers(w, st, a).kind = "ok" /\ ~a.simulate ->
         LET s == SCtx(w, st, a) IN
         [st EXCEPT !.cache[s.cdir] = [f \in DOMAIN @ |->
            IF f \in RangeOf(w.dirs[s.src]) THEN <<st.rules[f]>> ELSE @[f]]]
    [] a.call = "install" ->
         [st EXCEPT !.have = @ \cup {<<Place(ICtx(w, st, a), x[1]), x[2]>> :
                                      x \in RangeOf(Runs(w, st, a))}]
    [] OTHER -> st

\* ---- the other steps of a history
SetGlobal(st, n) == [st EXCEPT !.glob = n]
Edit(st, f, rules) == [st EXCEPT !.rules[f] = rules]
NewSCtx(w, st, arg) == [st EXCEPT !.sctxs = Append(@, SourcesIn(Conf(w, st, arg)))]
NewICtx(w, st, arg) == [st EXCEPT !.ictxs = Append(@, InstallersIn(Conf(w, st, arg)))]
\* a database of sources context n, of what is in the cache or in the files
NewDbOk(w, st, n, how) == how = "source" \/ AllCached(w, st, st.sctxs[n])
NewDb(w, st, n, how) == IF ~NewDbOk(w, st, n, how) THEN st ELSE
  [st EXCEPT !.dbs = Append(@,
     IF how = "source" THEN Current(w, st, st.sctxs[n])
     ELSE Cached(w, st, st.sctxs[n])), !.of = Append(@, st.sctxs[n])]
\* loading database n again, from either or (updating) from the files into
\* the cache
ReloadOk(w, st, n, how) == how # "cache" \/ AllCached(w, st, st.of[n])
Reload(w, st, n, how) ==
  LET s == st.of[n]
      new == [st EXCEPT !.dbs[n] =
                IF how = "cache" THEN Cached(w, st, s) ELSE Current(w, st, s)]
  IN IF how # "update" THEN new
     ELSE [new EXCEPT !.cache[s.cdir] = [f \in DOMAIN @ |->
             IF f \in RangeOf(w.dirs[s.src]) THEN <<st.rules[f]>> ELSE @[f]]]
==============================================================================
