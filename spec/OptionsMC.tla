------------------------------ MODULE OptionsMC ------------------------------
(* Two plugins of the same kind and an override of the second.               *)
EXTENDS Options

VARIABLES vals, last

S(x) == <<"s", x>>
Desc == <<[group |-> "", key |-> "o", type |-> <<"str">>, default |-> S("d")],
          [group |-> "", key |-> "p", type |-> <<"bool">>, default |-> <<"b", TRUE>>]>>
Env == [paths |-> [none |-> <<"none">>], home |-> <<"h">>, cwd |-> <<"w">>]
Of(n) == IF n = 3 THEN 2 ELSE n
Datas == {Empty, S("no dict"),
          <<"d", <<<<S("o"), S("v")>>>>>>, <<"d", <<<<S("p"), <<"b", FALSE>>>>>>>>,
          <<"d", <<<<S("o"), S("v")>>, <<S("p"), S("wrong")>>>>>>,
          <<"d", <<<<S("zz"), S("v")>>>>>>, <<"d", <<<<S("o"), Null>>>>>>}

Init == vals = [n \in 1..2 |-> Defaults(Desc)] /\ last = <<"none">>
Set(n, data) ==
  LET new == NewOptions(Desc, data, Env)
  IN /\ vals' = IF IsOk(new) THEN [vals EXCEPT ![Of(n)] = new[2]] ELSE vals
     /\ last' = <<"set", n, data, IsOk(new)>>
Next == \E n \in 1..3, data \in Datas : Set(n, data)

AlwaysTyped == \A n \in 1..2 : \A i \in DOMAIN Desc : Typed(Desc[i].type, vals[n][i])
\* nothing of what was set before remains
Replaced == last[1] = "set" /\ last[4] =>
  \A i \in DOMAIN Desc :
    vals[Of(last[2])][i] = IF Get(last[3], Desc[i].key) # Null
                           THEN Get(last[3], Desc[i].key) ELSE Desc[i].default
Isolated == [][\A n \in 1..2 : vals'[n] # vals[n] => last'[4] /\ Of(last'[2]) = n]_<<vals, last>>
==============================================================================
