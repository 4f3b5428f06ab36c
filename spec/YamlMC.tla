-------------------------------- MODULE YamlMC -------------------------------
(* All small values in all styles: a document says which value it is.        *)
EXTENDS Yaml, TLC, Json, SequencesExt

CONSTANTS Emit, Deep

VARIABLES st
Strings == {"a", "Zb", "", "1", "null", "a: b", "#", "it's", "- q\"", "true"}
Atoms == {<<"s", s>> : s \in Strings} \cup {<<"n">>, <<"x", "1">>, <<"x", "true">>,
           <<"l", <<>>>>, <<"d", <<>>>>}
Few == {<<"s", "a">>, <<"s", "null">>, <<"n">>, <<"l", <<>>>>, <<"d", <<>>>>}
Lists(V) == {<<"l", <<a>>>> : a \in V} \cup {<<"l", <<a, b>>>> : a \in V, b \in V}
Dicts(V) == {<<"d", << <<"b", a>> >> >> : a \in V}
            \cup {<<"d", << <<"b", a>>, <<"Q", b>> >> >> : a \in V, b \in V}
Pairs(V) == LET some == IF Deep THEN V ELSE Few IN Lists(some) \cup Dicts(some)
            \cup {<<"l", <<a>>>> : a \in V} \cup {<<"d", << <<"b", a>> >> >> : a \in V}
One == Lists(Few) \cup Dicts(Few)
Inner == Lists({<<"n">>, <<"s", "a">>}) \cup Dicts({<<"n">>, <<"s", "a">>})
Two == {<<"l", <<a>>>> : a \in One} \cup {<<"d", << <<"b", a>> >> >> : a \in One}
       \cup Lists(Inner) \cup Dicts(Inner)
Three == {<<"l", <<a>>>> : a \in Two} \cup {<<"d", << <<"k", a>> >> >> : a \in Two}
Values == (Atoms \ {<<"n">>}) \cup Pairs(Atoms) \cup Two
          \cup (IF Deep THEN Three ELSE {})

Plain == CHOOSE s \in Styles : s.seq = "block" /\ s.map = "block"
           /\ s.null = "~" /\ s.quote = "plain"
Init == value = <<"l", <<>>>> /\ text = "[]\n" /\ st = Plain
Next ==
  /\ text = "[]\n" /\ st = Plain
  /\ \/ \E v \in Values, s \in Styles :
          /\ WriteAs(v, s) /\ st' = s
          /\ Emit => PrintT("@@" \o ToJson([v |-> v, text |-> text', how |-> "style"]))
     \/ \E v \in Values :
          /\ Write(v) /\ st' = Written
          /\ Emit => PrintT("@@" \o ToJson([v |-> v, text |-> text', how |-> "dump"]))

\* no document stands for two values
Apart ==
  LET some == Atoms \cup One
      docs == TLCEval([v \in some |-> TLCEval(Documents(v))]) IN
  \A v \in some : \A w \in some :
    v = w \/ v[1] = "n" \/ w[1] = "n" \/ docs[v] \cap docs[w] = {}
ASSUME Emit \/ Apart
\* lists are on one line where xylem writes them, and lines are ended
Ended == Ch(text, Len(text)) = "\n"
\* writing does not depend on the order of keys
OrderFree == st = Written => text = Dump(value) /\ Dump(value) = Dump(Canon(value)) /\ Canon(Canon(value)) = Canon(value)
\* the lines that are written for a value: one for each key outside of lists
RECURSIVE Keys(_), KeysOf(_)
Keys(v) == IF v[1] # "d" \/ v[2] = <<>> THEN 0 ELSE KeysOf(v[2])
KeysOf(items) == IF items = <<>> THEN 0
                 ELSE 1 + Keys(items[1][2]) + KeysOf(Tail(items))
Count(s) == Cardinality({k \in 1..Len(s) : Ch(s, k) = "\n"})
OneLine == st = Written /\ value[1] \in {"d", "l"} /\ value[2] # <<>> =>
  Count(text) = IF value[1] = "l" THEN 1 ELSE Keys(value)
==============================================================================
