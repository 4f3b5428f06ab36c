------------------------------ MODULE RuleItems ------------------------------
(* Resolving one installer rule to items.  desc describes the entries of the *)
(* rule other than packages and depends.                                     *)
EXTENDS Config

Strings == <<"list", <<"str">>>>
NoStrings == <<"l", <<>>>>
Full(desc) ==
  <<[group |-> "", key |-> "packages", type |-> Strings, default |-> NoStrings],
    [group |-> "", key |-> "depends", type |-> Strings, default |-> NoStrings]>> \o desc

Parsed(desc, rule, env) ==
  IF rule[1] # "d" THEN Err
  ELSE MergeAll(Full(desc), <<DataLayer(Full(desc), rule, env), DefaultLayer(Full(desc))>>)

ListOf(v) == IF v = Null THEN <<>> ELSE v[2]

Item(desc, vals, p) ==
  <<"d", AsValue(desc, SubSeq(vals, 3, Len(vals)))[2] \o <<<<<<"s", "package">>, p>>>>>>

\* <<"err">> or <<"ok", sequence of items>>
Items(desc, rule, env) ==
  LET v == Parsed(desc, rule, env)
  IN IF ~IsOk(v) THEN Err
     ELSE LET ps == ListOf(v[2][1])
          IN Ok([n \in DOMAIN ps |-> Item(desc, v[2], ps[n])])
Depends(desc, rule, env) ==
  LET v == Parsed(desc, rule, env) IN IF ~IsOk(v) THEN Err ELSE Ok(ListOf(v[2][2]))

\* The words that an item prints as: the entries named by keys, in that order,
\* with lists taken apart.
RECURSIVE Shown(_, _)
Shown(item, keys) ==
  IF keys = <<>> THEN <<>>
  ELSE LET v == Get(item, Head(keys))
       IN (IF v[1] = "l" THEN [n \in DOMAIN v[2] |-> v[2][n][2]] ELSE <<v[2]>>)
          \o Shown(item, Tail(keys))
==============================================================================
