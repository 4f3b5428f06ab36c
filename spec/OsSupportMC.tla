------------------------------ MODULE OsSupportMC ----------------------------
(* Every forest of plugins in every order, every set of matches.             *)
EXTENDS OsSupport, Json

CONSTANTS All, Depth, DoEmit

VARIABLES steps

RECURSIVE Chain(_, _, _)
Chain(f, n, k) == IF k = 0 \/ n = "-" THEN <<>> ELSE <<n>> \o Chain(f, f[n], k - 1)
Acyclic(f) == \A n \in All : LET c == Chain(f, n, Cardinality(All) + 1)
                             IN Len(c) <= Cardinality(All)
Forests == {f \in [All -> All \cup {"-"}] : Acyclic(f)}
Orders == {s \in [1..Cardinality(All) -> All] : Rng(s) = All}
Init ==
  /\ \E f \in Forests, o \in Orders :
       plugins = [k \in DOMAIN o |-> [name |-> o[k],
                    names |-> Chain(f, o[k], Cardinality(All)), versions |-> <<"1", "2">>]]
  /\ matches \in SUBSET All
  /\ found = [n \in All |-> IF n \in matches THEN <<"2">> ELSE <<>>]
  /\ cur = NoOs /\ steps = 0
Turn(m) == [n \in All |-> IF n \in m THEN <<"1">> ELSE <<>>]
Next == steps < Depth /\ steps' = steps + 1 /\
  \/ \E n \in All : Detect(n) \/ Ask(n)
  \/ DetectFails
  \/ AskFails
  \/ \E n \in All, v \in {<<>>, <<"1">>} : Override(n, v)
  \/ Rejected
  \/ \E m \in SUBSET All : Machine(m, Turn(m))

SomethingToDetect == matches # {} => Specific # {}
NoParentDetected == [][\A n \in All : cur' = Plain(n) /\ cur # cur' =>
  \A m \in matches : n \notin Parents(m)]_<<plugins, matches, found, cur, steps>>
KnownVersion == cur.kind = "over" => cur.version[1] \in {"1", "2"}
\* only the match or the order changes
StaysWhatItIs == [][(matches' # matches \/ found' # found) => cur' = cur]_<<plugins, matches, found, cur, steps>>
Emit == (DoEmit /\ steps = 0) => PrintT("@@" \o ToJson(
  [plugins |-> plugins, matches |-> matches]))
==============================================================================
