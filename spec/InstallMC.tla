----------------------------- MODULE InstallMC ------------------------------
(* All runs of small installations: every resolution of a few items, every   *)
(* combination of options, every way installers and commands can behave.     *)
EXTENDS Install, TLC, Json

CONSTANTS MaxItems, WithErrors, DoEmit

VARIABLES st, log, sc

I == {"A", "B"}
\* item k is called "p<k>"; the sequences of installers of the items
Resolved(seq) == [k \in DOMAIN seq |-> [inst |-> seq[k], items |-> <<"p" \o ToString(k)>>]]

Init ==
  \E n \in 0..MaxItems : \E seq \in [1..n -> I], rerr \in {<<>>, <<"k1">>},
     c, re, si, fx \in BOOLEAN :
    /\ sc = [seq |-> seq, rerr |-> rerr, cont |-> c, reinstall |-> re,
             simulate |-> si, fix |-> fx]
    /\ st = Start(Resolved(seq), rerr,
                  [cont |-> c, reinstall |-> re, simulate |-> si, fix |-> fx,
                   interactive |-> TRUE])
    /\ log = <<>>

Sub(items) == {SelectSeq(items, LAMBDA x : x \in S) : S \in SUBSET Range(items)}

Do(ev, new) == st' \in new /\ log' = Append(log, ev) /\ UNCHANGED sc

E(op, inst, what, r) == [op |-> op, inst |-> inst, what |-> what, r |-> r]

Tok(k) == IF WithErrors THEN {<<k, "X">>} ELSE {}

Next ==
  \/ \E i \in I, r \in {"ok"} \cup (IF WithErrors THEN {"unsatisfied"} ELSE {}) :
       Do(E("general", i, <<>>, r), General(st, i, r))
  \/ /\ st.ph = "filter"
     /\ LET b == st.rest[1] IN
        \E r \in {<<"ok", s>> : s \in Sub(b.items)} \cup Tok("err") \cup Tok("boom") :
          Do(E("filter", b.inst, b.items, r), Filter(st, b.inst, b.items, r))
  \/ \E i \in st.pre, r \in {"ok"} \cup (IF WithErrors THEN {"unsatisfied"} ELSE {}) :
       Do(E("pre", i, ItemsOf(st.out, i), r), Pre(st, i, ItemsOf(st.out, i), r))
  \/ /\ st.ph = "compose"
     /\ \E r \in {<<"ok", st.batch.items>>, <<"ok", <<>>>>} \cup Tok("err") \cup Tok("boom") :
          Do(E("compose", st.batch.inst, st.batch.items, r),
             Compose(st, st.batch.inst, st.batch.items, r))
  \/ /\ st.ph = "commands" /\ st.opts.simulate
     /\ Do(E("announce", "", st.cmds[1], 0), Announce(st, st.cmds[1]))
  \/ /\ st.ph = "commands" /\ ~st.opts.simulate
     /\ \E code \in {0, 1} : Do(E("command", "", st.cmds[1], code),
                                Command(st, st.cmds[1], code))
  \/ /\ st.ph = "check"
     /\ \E r \in {<<"yes">>, <<"no">>} \cup Tok("err") \cup Tok("boom") :
          Do(E("check", st.batch.inst, st.checks[1], r),
             Check(st, st.batch.inst, st.checks[1], r))

Done == st.ph \in {"return", "raise"}
Emit == DoEmit /\ Done => PrintT("@@" \o ToJson([sc |-> sc, log |-> log]))

\* ---- properties, stated over the log --------------------------------------------
N == DOMAIN log
Is(n, op) == log[n].op = op
Bad(n) == \/ Is(n, "filter") /\ log[n].r[1] # "ok"
          \/ Is(n, "compose") /\ log[n].r[1] # "ok"
          \/ Is(n, "command") /\ log[n].r # 0
          \/ Is(n, "check") /\ log[n].r[1] # "yes"
          \/ (Is(n, "general") \/ Is(n, "pre")) /\ log[n].r # "ok"

StopsAtFirstFailure ==
  ~st.opts.cont => \A n \in N : \A m \in N :
     m > n /\ Bad(n) => ~Is(m, "command") /\ ~Is(m, "announce")
NothingAfterResolutionError == ~st.opts.cont /\ st.rerr # <<>> => log = <<>>
SimulateRunsNothing == st.opts.simulate => \A n \in N : ~Is(n, "command") /\ ~Is(n, "check")
RealAnnouncesNothing == ~st.opts.simulate => \A n \in N : ~Is(n, "announce")
GeneralFirst ==
  \A n, m \in N : Is(m, "general") /\ ~Is(n, "general") => m < n
PreBeforeCommands ==
  \A n, m \in N : Is(n, "pre") /\ (Is(m, "command") \/ Is(m, "compose")) => n < m
\* items are handed to commands in the order of resolution, each at most once
Composed == [n \in N |-> IF Is(n, "compose") THEN log[n].what ELSE <<>>]
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
Num(p) == CHOOSE k \in 1..MaxItems : p = "p" \o ToString(k)
InOrder == LET c == Cat(Composed, Len(log)) IN
  \A i, j \in DOMAIN c : i < j => Num(c[i]) < Num(c[j])
\* batches are maximal
Maximal == \A n, m \in N :
  Is(n, "compose") /\ Is(m, "compose") /\ n < m
  /\ (\A k \in N : n < k /\ k < m => ~Is(k, "compose")) => log[n].inst # log[m].inst
\* what is missing gets composed, when all goes well or errors are tolerated
ExactlyMissing ==
  Done /\ st.ph = "return" /\ (\A n \in N : ~Bad(n)) /\ (st.rerr = <<>> \/ st.opts.cont) =>
    Range(Cat(Composed, Len(log))) =
      IF st.opts.reinstall THEN {"p" \o ToString(k) : k \in DOMAIN sc.seq}
      ELSE UNION {IF Is(n, "filter") THEN Range(log[n].r[2]) ELSE {} : n \in N}
EverythingAttempted ==
  Done /\ st.ph = "return" /\ st.opts.cont =>
    \A n \in N : Is(n, "filter") /\ log[n].r[1] = "ok" =>
      Range(log[n].r[2]) \subseteq Range(Cat(Composed, Len(log)))
ReinstallDoesNotAsk == st.opts.reinstall => \A n \in N : ~Is(n, "filter")
EveryFailureCounts ==
  st.ph = "return" => Len(st.errs) = Cardinality({n \in N : Bad(n)})
NoSilentSkip ==
  st.ph = "return" /\ st.errs = <<>> /\ ~st.opts.simulate =>
    \A n \in N : Is(n, "compose") /\ log[n].r[2] # <<>> =>
      \A p \in Range(log[n].what) : \E m \in N :
        m > n /\ Is(m, "check") /\ log[m].what = p /\ log[m].r[1] = "yes"
Surfaces ==
  st.ph = "raise" => Bad(Len(log)) /\ st.why[1] =
     IF log[Len(log)].op \in {"general", "pre"} THEN "prerequisite" ELSE "internal"
=============================================================================
