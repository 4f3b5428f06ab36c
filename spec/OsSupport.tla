------------------------------- MODULE OsSupport -----------------------------
(* Which OS is current.  plugins is the sequence of OS plugins, each         *)
(* [name, names, versions]; names starts with its name and continues with    *)
(* its decreasingly specific parents.  The machine: matches is the set of    *)
(* plugins that match it, found what version detection says of each, as a    *)
(* sequence of length 0 (fails) or 1.                                        *)
(* cur is none, a plugin, or an override of a plugin with a fixed version.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES plugins, matches, found, cur

NoOs == [kind |-> "none", name |-> "", version |-> <<>>]
Plain(p) == [kind |-> "plain", name |-> p, version |-> <<>>]
Over(p, v) == [kind |-> "over", name |-> p, version |-> <<v>>]

Rng(s) == {s[k] : k \in DOMAIN s}
Names == {p.name : p \in Rng(plugins)}
Plugin(n) == CHOOSE p \in Rng(plugins) : p.name = n
Parents(n) == Rng(Plugin(n).names) \ {n}

\* those that may be detected: no parent of another match
Specific == {n \in matches : \A m \in matches : n \notin Parents(m)}
\* no single most specific match: the choice is worth a warning
Ambiguous == Cardinality(Specific) > 1

Same == UNCHANGED <<plugins, matches, found>>
Detect(n) == n \in Specific /\ cur' = Plain(n) /\ Same
DetectFails == matches = {} /\ UNCHANGED cur /\ Same

UnknownName(n) == n \notin Names
UnknownVersion(n, v) == n \in Names /\ v # <<>> /\ v[1] \notin Rng(Plugin(n).versions)
NoVersion(n, v) == n \in Names /\ v = <<>> /\ found[n] = <<>>
Override(n, v) ==
  /\ ~UnknownName(n) /\ ~UnknownVersion(n, v) /\ ~NoVersion(n, v)
  /\ cur' = Over(n, IF v = <<>> THEN found[n][1] ELSE v[1])
  /\ Same
Rejected == UNCHANGED cur /\ Same

\* asking for the current OS detects it only if it is not yet known
Ask(n) ==
  IF cur.kind = "none" THEN Detect(n)
  ELSE n = cur.name /\ UNCHANGED cur /\ Same
AskFails == cur.kind = "none" /\ DetectFails

\* something about the machine changes
Machine(m, f) == matches' = m /\ found' = f /\ UNCHANGED <<plugins, cur>>

VersionOf(c) == IF c.kind = "over" THEN c.version ELSE found[c.name]
==============================================================================
