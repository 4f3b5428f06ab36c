----------------------------- MODULE SourcesMC ------------------------------
(* Files appear in a directory in any order, one at a time.                  *)
EXTENDS Sources, TLC, Json

CONSTANTS MaxFiles, DoEmit

VARIABLES D, order

N(k) == CASE k = "a" -> <<97, 46, 121, 97, 109, 108>>          \* a.yaml
          [] k = "b" -> <<98, 46, 121, 97, 109, 108>>          \* b.yaml
          [] k = "10" -> <<49, 48, 46, 121, 97, 109, 108>>     \* 10.yaml
          [] k = "9" -> <<57, 46, 121, 97, 109, 108>>          \* 9.yaml
          [] k = "h" -> <<46, 97, 46, 121, 97, 109, 108>>      \* .a.yaml
          [] k = "t" -> <<97, 46, 116, 120, 116>>              \* a.txt
Kinds == [mem |-> [takes |-> [s |-> TRUE, i |-> FALSE, d |-> FALSE]]]
T(x) == [mem |-> <<"s", x>>]
Docs == {<<"doc", <<"l", <<<<"d", T("x")>>>>>>>>,
         <<"doc", <<"l", <<<<"d", T("y")>>, <<"d", T("z")>>>>>>>>,
         <<"doc", <<"l", <<>>>>>>,
         <<"doc", <<"l", <<<<"d", [mem |-> <<"i", "1">>]>>>>>>>>,
         <<"doc", <<"l", <<<<"d", [nix |-> <<"s", "u">>]>>>>>>>>,
         <<"doc", <<"s", "text">>>>,
         <<"bad">>}
Pool == [name : {N(k) : k \in {"a", "b", "10", "9", "h", "t"}},
         type : {"file", "link", "dir"}, content : Docs]

Init == D = {} /\ order = <<>>
Next == /\ Cardinality(D) < MaxFiles
        /\ \E f \in Pool :
             /\ f.type = "dir" => f.content = <<"bad">>
             /\ \A g \in D : g.name # f.name
             /\ D' = D \cup {f}
             /\ order' = Append(order, f)

R == Read(D, Kinds)

\* stated over pairs: position in the result follows (file name, entry)
Ordered ==
  R.ok => \A i, j \in DOMAIN R.sources :
    LexLess(R.sources[i].file, R.sources[j].file) => i < j
Only ==
  R.ok => \A i \in DOMAIN R.sources : \E f \in D :
    f.name = R.sources[i].file /\ f.type # "dir" /\ f.name[1] # DOT
    /\ f.name # N("t")
Nothing ==  \* what is not considered has no influence
  Read({f \in D : Considered(f)}, Kinds) = R
Unique == R.ok => \A i, j \in DOMAIN R.sources :
                    i # j => R.sources[i].args # R.sources[j].args
Faithful ==  \* adding a file only adds sources or makes the list invalid
  R.ok => \A f \in D : Considered(f) /\ f.content[1] = "doc" =>
    \A j \in DOMAIN f.content[2][2] :
      \E i \in DOMAIN R.sources :
        R.sources[i] = Source(f, f.content[2][2][j])

Emit == DoEmit => PrintT("@@" \o ToJson([files |-> order, ok |-> R.ok,
                                         sources |-> R.sources]))
=============================================================================
