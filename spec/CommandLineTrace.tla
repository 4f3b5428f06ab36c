---------------------------- MODULE CommandLineTrace -------------------------
(* Recorded histories of xylem processes.                                    *)
EXTENDS CommandLine, TraceKit

SetOf(s) == Rng(s)
TInit == TKInit /\ w = Trace[t].w /\ rules = Trace[t].rules /\ cache = <<>>
  /\ installed = SetOf(Trace[t].installed) /\ dir = Trace[t].dir /\ Start0

\* a printed rule in its short or long form
Meaning(d) ==
  CASE d[1] = "none" -> {}
    [] d[1] = "list" -> {[inst |-> w.default, pkgs |-> d[2]]}
    [] d[1] = "dict" -> {[inst |-> d[2][k][1], pkgs |-> d[2][k][2]] : k \in DOMAIN d[2]}

Exit ==
  /\ Ev.code = (CASE status = "ok" -> 0 [] status = "usage" -> 2 [] OTHER -> 1)
  /\ ~Ev.hung
  /\ status = "message" => Ev.message /\ ~Ev.traceback
  /\ status = "usage" => Ev.usage /\ ~Ev.traceback
  /\ status = "ok" => ~Ev.traceback
  \* a success says nothing of errors; an update tells of sources it cannot read
  /\ status = "ok" => Ev.silent = ~(r.cmd = "update" /\ rules = Broken)
  /\ r.cmd = "resolve" => Ev.out = out
  /\ r.cmd = "install" => Ev.planned = out
  /\ r.cmd = "lookup" => [k \in DOMAIN Ev.docs |-> <<Ev.docs[k][1], Meaning(Ev.docs[k][2])>>] = out
  /\ (Ev.ran = <<>> /\ ran = <<>>) \/ Ev.ran = ran
  /\ SetOf(Ev.installed) = installed /\ Ev.dir = dir

TNext ==
  \/ /\ IsEvent("run")
     /\ Begin([cmd |-> Ev.cmd, keys |-> Ev.keys, fault |-> Ev.fault, flags |-> SetOf(Ev.flags)])
  \/ Step /\ UNCHANGED <<t, l>>
  \/ IsEvent("exit") /\ phase = "stopped" /\ Exit /\ Finish
  \/ IsEvent("edit") /\ Edit(Ev.rules)
==============================================================================
