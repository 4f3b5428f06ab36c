------------------------------ MODULE CommandLine ----------------------------
(* The xylem process: one run after the other in the same world.             *)
(*                                                                           *)
(* World (constant in one history, w): order (all keys, sorted), core and    *)
(* extra (installers in order of preference), default (the default           *)
(* installer), behave (pairs <<package, what its command does>>, one of ok,  *)
(* fails, lies), packages are named uniquely.                                *)
(* rules: Broken (no rules at all) or a sequence of [key, insts], insts a    *)
(* sequence of [inst, pkgs].  cache: <<>> (none yet) or <<rules>>.  installed: set of    *)
(* packages.  dir: does the folder of the fake installer exist?              *)
(*                                                                           *)
(* A run r: cmd, keys, fault, and flags (a set of strings).                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES w, rules, cache, installed, dir, r, phase, todo, res, bad, queue, out, ran, status

world == <<rules, cache, installed, dir>>
runvars == <<r, phase, todo, res, bad, queue, out, ran, status>>

Rng(s) == {s[k] : k \in DOMAIN s}
Flag(f) == f \in r.flags
NeedsKeys == r.cmd \in {"resolve", "install", "lookup"}
UsesSources == NeedsKeys \/ r.cmd = "update"

Idle == [cmd |-> "idle", keys |-> <<>>, fault |-> "", flags |-> {}]
Start0 == r = Idle /\ phase = "idle" /\ todo = <<>> /\ res = <<>> /\ bad = 0
  /\ queue = <<>> /\ out = <<>> /\ ran = <<>> /\ status = "none"

Begin(run) ==
  /\ phase = "idle" /\ r' = run /\ phase' = "parse"
  /\ todo' = <<>> /\ res' = <<>> /\ bad' = 0 /\ queue' = <<>> /\ out' = <<>> /\ ran' = <<>>
  /\ status' = "none" /\ UNCHANGED <<w, world>>

\* status: "ok", "usage", "message" (failure with an explanation), "failure"
Stop(s) == phase' = "stopped" /\ status' = s /\ UNCHANGED <<r, todo, res, bad, queue, out, ran>>
Goto(p) == phase' = p /\ UNCHANGED <<r, todo, res, bad, queue, out, ran, status>>

Parse ==
  /\ phase = "parse" /\ UNCHANGED <<w, world>>
  /\ IF r.cmd \in {"none", "unknown"} \/ r.fault = "option" \/ (NeedsKeys /\ r.keys = <<>>)
     THEN Stop("usage")
     ELSE IF r.cmd = "help" THEN Stop("ok") ELSE Goto("configure")
Configure ==
  /\ phase = "configure" /\ UNCHANGED <<w, world>>
  /\ IF r.fault = "config" THEN Stop("message")
     ELSE IF NeedsKeys /\ r.fault = "os" THEN Stop("message")
     ELSE IF UsesSources /\ r.fault = "source" THEN Stop("message")
     ELSE IF r.fault = "interrupt" THEN Stop("failure")   \* while reading its files
     ELSE Goto("work")

Broken == << [key |-> "", insts |-> << [inst |-> "broken", pkgs |-> <<>>] >>] >>
Update ==
  /\ phase = "work" /\ r.cmd = "update"
  /\ cache' = (IF Flag("dry-run") \/ rules = Broken THEN cache ELSE <<rules>>)
  /\ Stop("ok") /\ UNCHANGED <<w, rules, installed, dir>>
Compact ==
  /\ phase = "work" /\ r.cmd = "compact" /\ UNCHANGED <<w, world>>
  /\ IF rules = Broken THEN Stop("failure") ELSE Stop("ok")

Found(k) == LET hits == {i \in DOMAIN cache[1] : cache[1][i].key = k}
            IN IF hits = {} THEN <<>> ELSE cache[1][CHOOSE i \in hits : TRUE].insts
Insts(k) == {x.inst : x \in Rng(Found(k))}
Packages(k, i) == (CHOOSE x \in Rng(Found(k)) : x.inst = i).pkgs
FirstOf(s, S) == LET hits == {i \in DOMAIN s : s[i] \in S}
                 IN s[CHOOSE i \in hits : \A j \in hits : i <= j]
Candidates(k) == IF Rng(w.core) \cap Insts(k) # {} THEN w.core ELSE w.extra
Resolvable(k) == (Rng(w.core) \cup Rng(w.extra)) \cap Insts(k) # {}
Resolved(k) == LET i == FirstOf(Candidates(k), Insts(k)) IN <<k, i, Packages(k, i)>>

RECURSIVE Unique(_)
Unique(s) == IF s = <<>> THEN <<>>
             ELSE LET rest == Unique(SubSeq(s, 1, Len(s) - 1)) IN
               IF s[Len(s)] \in Rng(rest) THEN rest ELSE Append(rest, s[Len(s)])
AllKeys == IF Flag("all") THEN r.keys \o SelectSeq(w.order, LAMBDA k : Insts(k) # {}) ELSE r.keys

Load ==
  /\ phase = "work" /\ NeedsKeys /\ UNCHANGED <<w, world>>
  /\ IF cache = <<>> THEN Stop("failure")
     ELSE /\ todo' = (IF r.cmd = "lookup" THEN r.keys ELSE Unique(AllKeys))
          /\ phase' = "keys"
          /\ UNCHANGED <<r, res, bad, queue, out, ran, status>>
Key ==
  /\ phase = "keys" /\ todo # <<>> /\ todo' = Tail(todo)
  /\ LET k == Head(todo) IN
     IF r.cmd = "lookup"
     THEN res' = Append(res, <<k, Rng(Found(k))>>) /\ UNCHANGED bad
     ELSE IF Resolvable(k) THEN res' = Append(res, Resolved(k)) /\ UNCHANGED bad
     ELSE bad' = bad + 1 /\ UNCHANGED res
  /\ UNCHANGED <<w, world, r, phase, queue, out, ran, status>>

\* the installer is named unless it is the default one
Shown(x) == IF x[2] = w.default /\ ~Flag("show-default-installer") THEN <<>> ELSE <<x[2]>>
Report ==
  /\ phase = "keys" /\ todo = <<>> /\ r.cmd # "install" /\ UNCHANGED <<w, world>>
  /\ out' = (IF r.cmd = "lookup" THEN res
             ELSE [k \in DOMAIN res |-> <<res[k][1], Shown(res[k]), res[k][3]>>])
  /\ phase' = "stopped" /\ status' = (IF bad = 0 THEN "ok" ELSE "message")
  /\ UNCHANGED <<r, todo, res, bad, queue, ran>>

\* installing: consecutive packages of one installer form a group
RECURSIVE Groups(_)
Groups(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET g == Groups(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN
    IF g # <<>> /\ g[Len(g)][1] = x[2]
    THEN Append(SubSeq(g, 1, Len(g) - 1), <<x[2], g[Len(g)][2] \o x[3]>>)
    ELSE Append(g, <<x[2], x[3]>>)
Missing(p) == Flag("reinstall") \/ p \notin installed
Wanted == LET s == [k \in DOMAIN res |-> <<res[k][1], res[k][2], SelectSeq(res[k][3], Missing)>>]
          IN Groups(SelectSeq(s, LAMBDA x : x[3] # <<>>))
UsesDir == \E k \in DOMAIN res : res[k][2] = "fake"
Prepare ==
  /\ phase = "keys" /\ todo = <<>> /\ r.cmd = "install" /\ UNCHANGED <<w, rules, cache, installed>>
  /\ IF bad > 0 /\ ~Flag("continue-on-error") THEN Stop("message") /\ UNCHANGED dir
     ELSE IF UsesDir /\ ~dir /\ ~Flag("fix-prerequisites") THEN Stop("message") /\ UNCHANGED dir
     ELSE /\ dir' = (dir \/ (UsesDir /\ ~Flag("dry-run")))
          /\ queue' = Wanted /\ phase' = "install"
          /\ UNCHANGED <<r, todo, res, bad, out, ran, status>>

Does(p) == LET hits == {k \in DOMAIN w.behave : w.behave[k][1] = p}
           IN IF hits = {} THEN "ok" ELSE w.behave[CHOOSE k \in hits : TRUE][2]
\* of the packages ps, those whose command is run
RECURSIVE Tried(_)
Tried(ps) == IF ps = <<>> THEN <<>>
             ELSE IF Does(Head(ps)) = "fails" /\ ~Flag("continue-on-error") THEN <<Head(ps)>>
             ELSE <<Head(ps)>> \o Tried(Tail(ps))
Install ==
  /\ phase = "install" /\ queue # <<>>
  /\ LET inst == Head(queue)[1] ps == Head(queue)[2] IN
     IF Flag("dry-run")
     THEN /\ out' = out \o [k \in DOMAIN ps |-> <<inst, ps[k]>>]
          /\ queue' = Tail(queue) /\ UNCHANGED <<ran, bad, installed>>
     ELSE LET tried == Tried(ps)
              now == installed \cup {p \in Rng(tried) : Does(p) = "ok"}
              failed == (\E p \in Rng(tried) : Does(p) = "fails") \/ ~(Rng(ps) \subseteq now)
          IN /\ ran' = ran \o [k \in DOMAIN tried |-> <<inst, tried[k]>>]
             /\ installed' = now
             /\ bad' = bad + (IF failed THEN 1 ELSE 0)
             /\ queue' = (IF failed /\ ~Flag("continue-on-error") THEN <<>> ELSE Tail(queue))
             /\ UNCHANGED out
  /\ UNCHANGED <<w, rules, cache, dir, r, phase, todo, res, status>>
Installed ==
  /\ phase = "install" /\ queue = <<>> /\ UNCHANGED <<w, world>>
  /\ IF bad = 0 THEN Stop("ok") ELSE Stop("message")

Finish == phase = "stopped" /\ Goto("idle") /\ UNCHANGED <<w, world>>

Step == Parse \/ Configure \/ Update \/ Compact \/ Load \/ Key \/ Report \/ Prepare
        \/ Install \/ Installed

\* between runs the sources are edited
Edit(new) == phase = "idle" /\ rules' = new /\ UNCHANGED <<w, cache, installed, dir, runvars>>
==============================================================================
