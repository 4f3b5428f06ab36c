------------------------------- MODULE Config -------------------------------
(* Typed configuration values, layers of configuration, and the directories  *)
(* derived from them.                                                        *)
(*                                                                           *)
(* A value is <<"n">>, <<"b", bool>>, <<"i", text>>, <<"f", text>>,          *)
(* <<"s", text>>, <<"l", sequence>>, <<"o", text>> (anything else) or        *)
(* <<"d", sequence of <<key, value>>>> with keys being values.               *)
(* A type is <<"any">>, <<"str">>, <<"bool">>, <<"path">>, <<"list", T>>,    *)
(* <<"dict", V, K>> or <<"mdict", V, K>>.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(q) == {q[i] : i \in DOMAIN q}

Null == <<"n">>
Empty == <<"d", <<>>>>
Err == <<"err">>
Ok(v) == <<"ok", v>>
IsOk(x) == x[1] = "ok"

\* order of dictionary entries does not matter
RECURSIVE Canon(_)
Canon(v) ==
  CASE v[1] = "l" -> <<"l", [n \in DOMAIN v[2] |-> Canon(v[2][n])]>>
    [] v[1] = "d" -> <<"d", {<<Canon(v[2][n][1]), Canon(v[2][n][2])>> : n \in DOMAIN v[2]}>>
    [] OTHER -> v
Same(a, b) == Canon(a) = Canon(b)

\* ---- paths ---------------------------------------------------------------------
\* a path is a sequence of components; absolute iff the first one is "" and
\* it has others.  Home and cwd are sequences of proper names.
RECURSIVE Squeeze(_, _)
Squeeze(done, rest) ==
  IF rest = <<>> THEN done
  ELSE LET c == rest[1] IN
       IF c = "" \/ c = "." THEN Squeeze(done, Tail(rest))
       ELSE IF c = ".." THEN
              Squeeze(IF done = <<>> THEN done ELSE SubSeq(done, 1, Len(done) - 1), Tail(rest))
       ELSE Squeeze(Append(done, c), Tail(rest))
Normal(comps) == Squeeze(<<>>, comps)

ExpandComps(comps, home, cwd) ==
  IF comps[1] = "~" THEN Normal(home \o Tail(comps))
  ELSE IF comps[1] = "" /\ Len(comps) > 1 THEN Normal(comps)
  ELSE Normal(cwd \o comps)

RECURSIVE Join(_)
Join(comps) == IF comps = <<>> THEN "" ELSE "/" \o comps[1] \o Join(Tail(comps))
PathText(comps) == IF comps = <<>> THEN "/" ELSE Join(comps)

\* env: [paths: text -> components, home, cwd]
Expand(text, env) == PathText(ExpandComps(env.paths[text], env.home, env.cwd))

\* ---- conversion ------------------------------------------------------------------
Unset(T) == IF T[1] = "mdict" THEN Empty ELSE Null
IsUnset(T, v) == v = Unset(T)

AllOk(f) == \A n \in DOMAIN f : IsOk(f[n])

RECURSIVE Convert(_, _, _)
Convert(T, v, env) ==
  IF v = Null THEN Ok(Unset(T))
  ELSE CASE T[1] = "any" -> Ok(v)
         [] T[1] = "str" -> IF v[1] = "s" THEN Ok(v) ELSE Err
         [] T[1] = "bool" -> IF v[1] = "b" THEN Ok(v) ELSE Err
         [] T[1] = "path" -> IF v[1] = "s" THEN Ok(<<"s", Expand(v[2], env)>>) ELSE Err
         [] T[1] = "list" ->
              IF v[1] # "l" THEN Err
              ELSE LET c == [n \in DOMAIN v[2] |-> Convert(T[2], v[2][n], env)]
                   IN IF AllOk(c) THEN Ok(<<"l", [n \in DOMAIN c |-> c[n][2]]>>) ELSE Err
         [] T[1] \in {"dict", "mdict"} ->
              IF v[1] # "d" THEN Err
              ELSE LET k == [n \in DOMAIN v[2] |-> Convert(T[3], v[2][n][1], env)]
                       c == [n \in DOMAIN v[2] |-> Convert(T[2], v[2][n][2], env)]
                   IN IF AllOk(k) /\ AllOk(c)
                      THEN Ok(<<"d", [n \in DOMAIN c |-> <<k[n][2], c[n][2]>>]>>) ELSE Err

\* Is v a value the type allows in a configuration?
RECURSIVE Typed(_, _)
Typed(T, v) ==
  \/ v = Unset(T)
  \/ CASE T[1] = "any" -> TRUE
       [] T[1] \in {"str", "path"} -> v[1] = "s"
       [] T[1] = "bool" -> v[1] = "b"
       [] T[1] = "list" -> v[1] = "l" /\ \A n \in DOMAIN v[2] : Typed(T[2], v[2][n])
       [] OTHER -> v[1] = "d" /\ \A n \in DOMAIN v[2] :
                      Typed(T[3], v[2][n][1]) /\ Typed(T[2], v[2][n][2])

\* Texts given for one command line argument, in order.  Each text x is a
\* record: s the text itself, y what it is as YAML, l and d what it is as YAML
\* when put in brackets or braces (each <<"ok", value>> or <<"err">>).
Last(q) == q[Len(q)]
AsList(x) == IF IsOk(x.y) /\ x.y[2][1] = "l" THEN x.y
             ELSE IF IsOk(x.l) /\ x.l[2][1] = "l" THEN x.l ELSE Err
AsDict(x) == IF IsOk(x.y) /\ x.y[2][1] = "d" THEN x.y
             ELSE IF IsOk(x.d) /\ x.d[2][1] = "d" THEN x.d ELSE Err
RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE qs[1] \o Concat(Tail(qs))
Keys(d) == {Canon(d[2][n][1]) : n \in DOMAIN d[2]}

FromTexts(T, xs, env) ==
  IF xs = <<>> THEN Ok(Unset(T))
  ELSE CASE T[1] \in {"str", "path"} -> Convert(T, <<"s", Last(xs).s>>, env)
         [] T[1] \in {"any", "bool"} ->
              IF IsOk(Last(xs).y) THEN Convert(T, Last(xs).y[2], env) ELSE Err
         [] T[1] = "list" ->
              LET c == [n \in DOMAIN xs |-> AsList(xs[n])]
              IN IF AllOk(c)
                 THEN Convert(T, <<"l", Concat([n \in DOMAIN c |-> c[n][2][2]])>>, env)
                 ELSE Err
         [] OTHER ->
              LET c == [n \in DOMAIN xs |-> AsDict(xs[n])]
              IN IF AllOk(c) /\ \A i, j \in DOMAIN c :
                                  i # j => Keys(c[i][2]) \cap Keys(c[j][2]) = {}
                 THEN Convert(T, <<"d", Concat([n \in DOMAIN c |-> c[n][2][2]])>>, env)
                 ELSE Err

\* ---- layers ----------------------------------------------------------------------
\* A description is a sequence of items [group ("" if none), key, type,
\* default, cl]; a layer gives a value for each of them, or is Err.
Merge(T, top, bottom) ==
  IF T[1] = "mdict"
  THEN <<"d", top[2] \o SelectSeq(bottom[2],
                 LAMBDA p : Canon(p[1]) \notin Keys(top))>>
  ELSE IF IsUnset(T, top) THEN bottom ELSE top

Text(x) == <<"s", x>>
Has(d, k) == \E n \in DOMAIN d[2] : d[2][n][1] = Text(k)
Get(d, k) == IF Has(d, k)
             THEN d[2][CHOOSE n \in DOMAIN d[2] : d[2][n][1] = Text(k)][2]
             ELSE Null

\* configuration data, as read from a file or passed as a dictionary
GroupOf(data, g) == LET x == Get(data, g) IN IF x = Null THEN Empty ELSE x
DataLayer(desc, data, env) ==
  IF data[1] # "d" THEN Err
  ELSE IF \E n \in DOMAIN data[2] : data[2][n][1][1] # "s" THEN Err
  ELSE IF \E i \in DOMAIN desc : desc[i].group # "" /\ GroupOf(data, desc[i].group)[1] # "d"
  THEN Err
  ELSE LET c == [i \in DOMAIN desc |->
                   Convert(desc[i].type,
                           IF desc[i].group = "" THEN Get(data, desc[i].key)
                           ELSE Get(GroupOf(data, desc[i].group), desc[i].key), env)]
       IN IF AllOk(c) THEN Ok([i \in DOMAIN c |-> c[i][2]]) ELSE Err

\* file: <<"absent">>, <<"bad">> (not readable as YAML) or <<"ok", value>>
FileLayer(desc, file, env) ==
  IF file[1] = "bad" THEN Err
  ELSE DataLayer(desc, IF file[1] = "absent" \/ file[2] = Null THEN Empty ELSE file[2], env)

\* given: for each item the texts of its command line argument
ArgsLayer(desc, given, env) ==
  LET c == [i \in DOMAIN desc |->
              IF desc[i].cl THEN FromTexts(desc[i].type, given[i], env)
              ELSE Ok(Unset(desc[i].type))]
  IN IF AllOk(c) THEN Ok([i \in DOMAIN c |-> c[i][2]]) ELSE Err

DefaultOf(item) == IF item.default = Null THEN Unset(item.type) ELSE item.default
DefaultLayer(desc) == Ok([i \in DOMAIN desc |-> DefaultOf(desc[i])])

RECURSIVE MergeAll(_, _)
MergeAll(desc, layers) ==
  IF Len(layers) = 1 THEN layers[1]
  ELSE LET rest == MergeAll(desc, Tail(layers))
       IN IF ~IsOk(layers[1]) \/ ~IsOk(rest) THEN Err
          ELSE Ok([i \in DOMAIN desc |-> Merge(desc[i].type, layers[1][2][i], rest[2][i])])

\* files: [dir, user, system]; which: "dir" if a configuration directory is
\* given, else "system" if user configuration is disabled, else "both"
Layers(desc, given, files, which, env) ==
  <<ArgsLayer(desc, given, env)>> \o
  (CASE which = "dir" -> <<FileLayer(desc, files.dir, env)>>
     [] which = "system" -> <<FileLayer(desc, files.system, env)>>
     [] which = "both" -> <<FileLayer(desc, files.user, env),
                            FileLayer(desc, files.system, env)>>) \o
  <<DefaultLayer(desc)>>

\* the configuration as a value
Groups(desc) == {desc[i].group : i \in DOMAIN desc} \ {""}
RECURSIVE Build(_, _, _)
Build(desc, vals, g) ==   \* entries of group g, for all items
  [n \in 1..Len(SelectSeq([i \in DOMAIN desc |-> i], LAMBDA i : desc[i].group = g)) |->
     LET i == SelectSeq([j \in DOMAIN desc |-> j], LAMBDA j : desc[j].group = g)[n]
     IN <<Text(desc[i].key), vals[i]>>]
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE
                                        IN <<x>> \o SetToSeq(S \ {x})
AsValue(desc, vals) ==
  LET gs == SetToSeq(Groups(desc))
  IN <<"d", Build(desc, vals, "") \o
       [n \in DOMAIN gs |-> <<Text(gs[n]), <<"d", Build(desc, vals, gs[n])>>>>]>>

\* ---- directories -------------------------------------------------------------------
\* a: [prefix_cl, prefix_env, dir_cl, dir_env] (component sequences, <<>> if
\* not given), set: [cache, sources, user] (components or <<>>)
Given(a, b) == IF a # <<>> THEN a ELSE b
Prefix(a, home, cwd) ==
  LET g == Given(a.prefix_cl, a.prefix_env)
  IN IF g = <<>> THEN <<>> ELSE ExpandComps(g, home, cwd)
HasDir(a) == a.dir_cl # <<>> \/ a.dir_env # <<>>
Dir(a, home, cwd) == ExpandComps(Given(a.dir_cl, a.dir_env), home, cwd)
UserDir(home) == home \o <<".config", "xylem">>
CacheDir(a, set, home, cwd) ==
  IF set.cache # <<>> THEN ExpandComps(set.cache, home, cwd)
  ELSE IF HasDir(a) THEN Dir(a, home, cwd) \o <<"cache">>
  ELSE IF set.user THEN UserDir(home) \o <<"cache">>
  ELSE Prefix(a, home, cwd) \o <<"var", "cache", "xylem">>
SourcesDir(a, set, home, cwd) ==
  IF set.sources # <<>> THEN ExpandComps(set.sources, home, cwd)
  ELSE IF HasDir(a) THEN Dir(a, home, cwd) \o <<"sources.d">>
  ELSE IF set.user THEN UserDir(home) \o <<"sources.d">>
  ELSE Prefix(a, home, cwd) \o <<"etc", "xylem", "sources.d">>
=============================================================================
