------------------------------ MODULE PluginsMC ------------------------------
(* All short sequences of entry points and sets of disabled plugins.         *)
EXTENDS Plugins, Json

CONSTANTS MaxEntries, DoEmit

VARIABLES entries, disabled

Definition(p, c) == Dct([k \in {"plugin_name", "description", "kind"} |->
  CASE k = "plugin_name" -> p [] k = "kind" -> <<"c", c>> [] OTHER -> Str("d")])
Entry(loads, def, made, o, vok) ==
  [loads |-> loads, def |-> def, made |-> made, oname |-> o, vok |-> vok]
Kinds ==
  {Entry(TRUE, Definition(Str(p), "right"), TRUE, Str(o), TRUE) :
     p \in {"p", "q"}, o \in {"p", "q"}}
  \cup {Entry(FALSE, Null, TRUE, Str("p"), TRUE),
        Entry(TRUE, Definition(Null, "right"), TRUE, Str("p"), TRUE),
        Entry(TRUE, Definition(Str("p"), "wrong"), TRUE, Str("p"), TRUE),
        Entry(TRUE, Definition(Str("p"), "right"), FALSE, Str("p"), TRUE),
        Entry(TRUE, Definition(Str("p"), "right"), TRUE, Str("a b"), TRUE),
        Entry(TRUE, Definition(Str("p"), "right"), TRUE, Str("p"), FALSE)}
Init ==
  /\ \E n \in 0..MaxEntries : entries \in [1..n -> Kinds]
  /\ disabled \in SUBSET {"p", "q"}
Next == UNCHANGED <<entries, disabled>>

L == Loaded(entries, "kind", disabled)
IsLoaded(n) == \E k \in DOMAIN L : L[k] = n
InOrder == \A i, j \in DOMAIN L : i < j => L[i] < L[j]
UniqueNames == \A i, j \in DOMAIN L : i # j => entries[L[i]].oname # entries[L[j]].oname
OnlyGood == \A k \in DOMAIN L : Candidate(entries[L[k]], "kind", disabled)
\* a good one is missing only because of an earlier one of its name
OnlyDuplicatesMissing == \A n \in DOMAIN entries :
  Candidate(entries[n], "kind", disabled) /\ ~IsLoaded(n) =>
    \E m \in 1..(n - 1) : IsLoaded(m) /\ entries[m].oname = entries[n].oname
\* one that is not loaded might as well not be there
Drop(n) == SubSeq(entries, 1, n - 1) \o SubSeq(entries, n + 1, Len(entries))
NoTrace == \A n \in DOMAIN entries : ~IsLoaded(n) =>
  Loaded(Drop(n), "kind", disabled) = [k \in DOMAIN L |-> IF L[k] > n THEN L[k] - 1 ELSE L[k]]
Emit == DoEmit => PrintT("@@" \o ToJson([entries |-> entries, disabled |-> disabled]))
==============================================================================
