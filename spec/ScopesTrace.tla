----------------------------- MODULE ScopesTrace -----------------------------
(* Recorded programs; the state of the process is observed after each step.  *)
EXTENDS Scopes, TraceKit

TInit == TKInit /\ SInit("d1")

Range(s) == {s[k] : k \in DOMAIN s}
Seen ==
  /\ Ev.cwd = cwd' /\ Ev.out = out' /\ Ev.err = err'
  /\ Range(Ev.temps) = temps' /\ Ev.exc = exc'
  /\ \A s \in DOMAIN text' : Ev.text[s] = text'[s]
Step ==
  \/ IsEvent("cd") /\ EnterCd(Ev.to)
  \/ IsEvent("tmp") /\ EnterTmp /\ Ev.value = cwd' /\ Ev.prefixed
  \/ IsEvent("std") /\ EnterStd
  \/ IsEvent("fail") /\ Fail /\ "OSError" \in Range(Ev.types)
  \/ IsEvent("leave") /\ Leave
  \/ IsEvent("raise") /\ Raise(Ev.e)
  \/ IsEvent("catch") /\ Catch
  \/ IsEvent("chdir") /\ Chdir(Ev.to)
  \/ IsEvent("write") /\ Write(Ev.which, Ev.what)
  \/ IsEvent("swap") /\ SwapOut
  \/ IsEvent("remove") /\ Remove(Ev.of)
  \/ IsEvent("vanish") /\ Vanish(Ev.of)
TNext == Step /\ Seen
==============================================================================
