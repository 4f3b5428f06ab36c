----------------------------- MODULE OsSupportTrace --------------------------
(* Recorded histories of detecting, overriding and asking.                   *)
EXTENDS OsSupport, TraceKit

\* a function from a sequence of pairs
Fun(s) == [n \in {s[k][1] : k \in DOMAIN s} |-> s[CHOOSE k \in DOMAIN s : s[k][1] = n][2]]

TInit == TKInit /\ cur = NoOs /\ plugins = Trace[t].plugins
  /\ matches = {} /\ found = Fun(Trace[t].found)

Is(e) == e \in Rng(Ev.types)
Fine == Ev.types = <<>>

\* the answers of the current OS
Answers ==
  /\ Ev.name = cur'.name
  /\ Ev.names = Plugin(cur'.name).names
  /\ Ev.tuple = (IF VersionOf(cur') = <<>> THEN <<>> ELSE <<cur'.name, VersionOf(cur')[1]>>)
  /\ Ev.version = VersionOf(cur')
  /\ Ev.matches = (cur'.kind = "over" \/ cur'.name \in matches)
  /\ Ev.versions = Plugin(cur'.name).versions
  /\ Ev.others   \* all other answers are those of the plugin

TNext ==
  \/ IsEvent("machine") /\ Machine(Rng(Ev.matches), Fun(Ev.found))
  \/ /\ IsEvent("detect")
     /\ \/ Fine /\ (\E n \in Names : Detect(n)) /\ Ev.warned = Ambiguous
        \/ Is("UnsupportedOSError") /\ DetectFails
  \/ /\ IsEvent("override")
     /\ \/ Fine /\ Override(Ev.of, Ev.to)
        \/ Is("UnsupportedOSError") /\ UnknownName(Ev.of) /\ Rejected
        \/ Is("UnsupportedOSVersionError") /\ UnknownVersion(Ev.of, Ev.to) /\ Rejected
        \/ (Is("UnsupportedOSError") \/ Is("UnsupportedOSVersionError"))
           /\ NoVersion(Ev.of, Ev.to) /\ Rejected
  \/ IsEvent("nothing") /\ Fine /\ Rejected
  \/ /\ IsEvent("ask")
     /\ \/ Fine /\ Ask(Ev.name) /\ Answers
        \/ Is("UnsupportedOSError") /\ AskFails
==============================================================================
