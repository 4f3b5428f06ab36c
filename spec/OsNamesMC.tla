------------------------------- MODULE OsNamesMC -----------------------------
EXTENDS OsNames, Json

CONSTANT DoEmit

VARIABLES maps, v, list

Maps == {<<"none">>, <<"same">>, <<"map", << <<"1", <<"2">> >>, <<"3", <<>> >> >> >>}
Vs == {"1", "2", "3"}
Names == <<"a", "b", "c">>
Init ==
  /\ maps \in [1..2 -> Maps]
  /\ v \in {<<>>} \cup {<<x>> : x \in Vs}
  /\ \E n \in 0..3 : list \in {s \in [1..n -> Vs] : \A i, j \in 1..n : i # j => s[i] # s[j]}
Next == UNCHANGED <<maps, v, list>>

T == Tuples(Names, maps, v)
ItselfFirst == T[1] = <<"a", v>>
UnknownStays == \A k \in 1..2 : T[k][2] = <<>> => T[k + 1][2] = <<>>
Total == \A a, b \in Rng(list) : a # b => {Less(list, a, b), Less(list, b, a)} = {"yes", "no"}
Irreflexive == \A a \in Rng(list) : Less(list, a, a) = "no"
Transitive == \A a, b, c \in Rng(list) :
  Less(list, a, b) = "yes" /\ Less(list, b, c) = "yes" => Less(list, a, c) = "yes"
Emit == DoEmit => PrintT("@@" \o ToJson([maps |-> maps, v |-> v, list |-> list]))
==============================================================================
