----------------------------- MODULE MessagesTrace ---------------------------
EXTENDS Messages, TraceKit

TInit == TKInit /\ MInit

Saw == wrote' = Ev.wrote /\ result' = Ev.result
Rng(s) == {s[k] : k \in DOMAIN s}

TNext ==
  \/ IsEvent("say") /\ Say(Ev.level, Ev.msg, Ev.to, Ev.end) /\ Saw
  \/ IsEvent("die") /\ Die(Ev.msg) /\ Saw
  \/ IsEvent("format") /\ Format(Ev.pieces) /\ Saw
  \/ IsEvent("code") /\ Code(Ev.name) /\ Saw
  \/ IsEvent("set") /\ Set(Ev.verbose, Ev.debug, Ev.color, Ev.pdb) /\ Saw
       /\ Ev.is = <<verbose', debug', pdb'>>
  \/ IsEvent("arguments") /\ Arguments(Rng(Ev.opts), Rng(Ev.env)) /\ Saw
       /\ Ev.is = <<verbose', debug', pdb'>>
  \/ IsEvent("uncaught") /\ Uncaught(Ev.tty, Ev.interactive) /\ Saw
  \* whole processes, the second time without colors
  \/ IsEvent("process") /\ UNCHANGED gvars
       /\ LET p == Process(Rng(Ev.opts), Ev.env, Ev.scenario)
              q == [p EXCEPT !.colors = FALSE]
          IN Ev.saw = p /\ Ev.plain = q
       /\ Ev.same
  \* a process that starts: debug messages if the environment asks for them
  \/ IsEvent("start") /\ UNCHANGED gvars /\ Ev.debug = Ev.env
==============================================================================
