----------------------------- MODULE RuleItemsMC -----------------------------
EXTENDS RuleItems, Json

CONSTANT DoEmit
VARIABLE rule

S(x) == <<"s", x>>
Desc == <<[group |-> "", key |-> "flag", type |-> <<"bool">>, default |-> <<"b", TRUE>>],
          [group |-> "g", key |-> "opts", type |-> Strings, default |-> Null]>>
Env == [paths |-> [none |-> <<"none">>], home |-> <<"h">>, cwd |-> <<"w">>]

Absent == <<"absent">>
Lists == {Absent, Null, NoStrings, <<"l", <<S("a")>>>>, <<"l", <<S("a"), S("b")>>>>,
          <<"l", <<S("a"), S("a")>>>>, S("a"), <<"l", <<<<"i", "1">>>>>>}
Flags == {Absent, Null, <<"b", FALSE>>, S("x")}
Groups2 == {Absent, Null, <<"d", <<<<S("opts"), <<"l", <<S("o")>>>>>>>>>>, S("g")}
Entry(k, v) == IF v = Absent THEN <<>> ELSE <<<<S(k), v>>>>
Init == \E p \in Lists, d \in Lists, f \in Flags, g \in Groups2, u \in BOOLEAN :
  rule = <<"d", Entry("packages", p) \o Entry("depends", d) \o Entry("flag", f) \o
                Entry("g", g) \o (IF u THEN <<<<S("unknown"), S("x")>>>> ELSE <<>>)>>
Next == UNCHANGED rule

R == Items(Desc, rule, Env)
P == Get(rule, "packages")
OnePerPackage == IsOk(R) =>
  /\ Len(R[2]) = Len(ListOf(IF P = Null THEN NoStrings ELSE P))
  /\ \A n \in DOMAIN R[2] : Get(R[2][n], "package") = P[2][n]
NoDepends == IsOk(R) => \A n \in DOMAIN R[2] :
  ~Has(R[2][n], "depends") /\ ~Has(R[2][n], "packages") /\ ~Has(R[2][n], "unknown")
  /\ Has(R[2][n], "flag") /\ Has(R[2][n], "g")
WrongRejected == IsOk(R) <=>
  /\ Typed(Strings, P) /\ Typed(Strings, Get(rule, "depends"))
  /\ Typed(<<"bool">>, Get(rule, "flag")) /\ Get(rule, "g")[1] \in {"n", "d"}
Emit == DoEmit => PrintT("@@" \o ToJson([rule |-> rule]))
==============================================================================
