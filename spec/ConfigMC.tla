------------------------------ MODULE ConfigMC ------------------------------
(* All small sets of layers: a plain item, a boolean, a list, a merging      *)
(* dictionary and a grouped item, each set or not in every layer.            *)
EXTENDS Config, Json

CONSTANTS DoEmit

VARIABLES which, chosen

S(x) == <<"s", x>>
D(k, v) == <<"d", <<<<S(k), v>>>>>>
\* the item under test and a neighbour in the same group
Item(kind) ==
  CASE kind = "str" -> [group |-> "", key |-> "x", type |-> <<"str">>, default |-> S("d"), cl |-> TRUE]
    [] kind = "bool" -> [group |-> "", key |-> "x", type |-> <<"bool">>, default |-> <<"b", TRUE>>, cl |-> TRUE]
    [] kind = "list" -> [group |-> "g", key |-> "x", type |-> <<"list", <<"str">>>>, default |-> <<"l", <<S("d")>>>>, cl |-> TRUE]
    [] kind = "mdict" -> [group |-> "", key |-> "x", type |-> <<"mdict", <<"any">>, <<"str">>>>, default |-> D("k", S("d")), cl |-> TRUE]
    [] kind = "nodef" -> [group |-> "g", key |-> "x", type |-> <<"bool">>, default |-> Null, cl |-> FALSE]
Other == [group |-> "g", key |-> "o", type |-> <<"str">>, default |-> Null, cl |-> TRUE]
Kinds == {"str", "bool", "list", "mdict", "nodef"}
Desc == <<Item(chosen.kind), Other>>

Vals(kind) ==
  CASE kind = "str" -> {Null, S(""), S("v"), <<"i", "1">>}
    [] kind \in {"bool", "nodef"} -> {Null, <<"b", FALSE>>, <<"b", TRUE>>, S("no")}
    [] kind = "list" -> {Null, <<"l", <<>>>>, <<"l", <<S("a")>>>>, <<"l", <<<<"i", "1">>>>>>}
    [] kind = "mdict" -> {Null, Empty, D("k", S("a")), D("k", <<"b", FALSE>>), D("j", S("")), <<"l", <<>>>>}

\* a file with the value for the item, and one for the neighbour
FileOf(kind, v, o) ==
  LET inner == <<<<S("x"), v>>>> \o (IF o THEN <<<<S("o"), S("set")>>>> ELSE <<>>)
  IN IF Item(kind).group = "g" THEN <<"ok", <<"d", <<<<S("g"), <<"d", inner>>>>>>>>>>
     ELSE <<"ok", <<"d", <<<<S("x"), v>>>> \o
                    (IF o THEN <<<<S("g"), D("o", S("set"))>>>> ELSE <<>>)>>>>
Files(kind) == {<<"absent">>, <<"bad">>, <<"ok", Null>>} \cup
               {FileOf(kind, v, o) : v \in Vals(kind), o \in BOOLEAN}

Init ==
  /\ which \in {"dir", "system", "both"}
  /\ \E kind \in Kinds : \E d \in Files(kind), s \in Files(kind), u \in Files(kind),
        c \in BOOLEAN, o \in BOOLEAN :
       /\ (which = "dir" => s = <<"bad">> /\ u = <<"bad">>)
       /\ (which = "system" => d = <<"bad">> /\ u = <<"bad">>)
       /\ (which = "both" => d = <<"bad">>)
       /\ chosen = [kind |-> kind, dir |-> d, system |-> s, user |-> u, cl |-> c, other |-> o]
Next == UNCHANGED <<which, chosen>>

Y(s, v) == [s |-> s, y |-> Ok(v), l |-> Ok(<<"l", <<v>>>>), d |-> Err]
Given1(kind) ==
  CASE kind = "str" -> Y("c", S("c"))
    [] kind \in {"bool", "nodef"} -> Y("no", <<"b", FALSE>>)
    [] kind = "list" -> Y("c", S("c"))
    [] kind = "mdict" -> Y("k: c", D("k", S("c")))
Given0 == <<IF chosen.cl THEN <<Given1(chosen.kind)>> ELSE <<>>,
            IF chosen.other THEN <<Y("o", S("o"))>> ELSE <<>>>>

Env == [paths |-> [none |-> <<"none">>], home |-> <<"h">>, cwd |-> <<"w">>]
Fs == [dir |-> chosen.dir, user |-> chosen.user, system |-> chosen.system]
R == MergeAll(Desc, Layers(Desc, Given0, Fs, which, Env))

\* stated directly, without merging pairwise
Used == CASE which = "dir" -> <<chosen.dir>> [] which = "system" -> <<chosen.system>>
          [] which = "both" -> <<chosen.user, chosen.system>>
Raw(f, group, key) ==
  IF f[1] # "ok" \/ f[2] = Null THEN Null
  ELSE IF group = "" THEN Get(f[2], key) ELSE Get(GroupOf(f[2], group), key)
\* every layer's value for item i, highest first, without conversion
Column(i) ==
  <<IF Desc[i].cl /\ Given0[i] # <<>> THEN FromTexts(Desc[i].type, Given0[i], Env)[2]
    ELSE Null>>
  \o [n \in DOMAIN Used |-> Raw(Used[n], Desc[i].group, Desc[i].key)] \o <<Desc[i].default>>
FirstSet(q) == IF \E n \in DOMAIN q : q[n] # Null
               THEN q[CHOOSE n \in DOMAIN q : q[n] # Null /\ \A m \in 1..(n - 1) : q[m] = Null]
               ELSE Null
HighestWins ==
  IsOk(R) => \A i \in DOMAIN Desc : Desc[i].type[1] # "mdict" =>
    Same(R[2][i], FirstSet(Column(i)))
KeyByKey ==
  IsOk(R) /\ chosen.kind = "mdict" =>
    /\ \A k \in {"k", "j"} :
         LET q == [n \in DOMAIN Column(1) |->
                     IF Column(1)[n] = Null THEN Null ELSE Get(Column(1)[n], k)]
         IN Get(R[2][1], k) = FirstSet(q)
    /\ Cardinality(Keys(R[2][1])) = Len(R[2][1][2])
AlwaysTyped == IsOk(R) => \A i \in DOMAIN Desc : Typed(Desc[i].type, R[2][i])
RejectedIffBad ==
  IsOk(R) = (\A n \in DOMAIN Used :
               /\ Used[n][1] # "bad"
               /\ IsOk(Convert(Desc[1].type, Raw(Used[n], Desc[1].group, "x"), Env)))
Ignored ==   \* files not used have no influence
  MergeAll(Desc, Layers(Desc, Given0,
     [dir |-> IF which = "dir" THEN Fs.dir ELSE <<"absent">>,
      user |-> IF which = "both" THEN Fs.user ELSE <<"absent">>,
      system |-> IF which # "dir" THEN Fs.system ELSE <<"absent">>], which, Env)) = R

Emit == DoEmit => PrintT("@@" \o ToJson(
  [which |-> which, kind |-> chosen.kind, files |-> Fs, cl |-> chosen.cl, other |-> chosen.other]))
=============================================================================
