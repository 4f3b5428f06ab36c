----------------------------- MODULE OsNamesJudge ----------------------------
(* What OS plugins say about their names, versions, and default installers.  *)
EXTENDS OsNames, JudgeKit

\* the order in which versions really were released
History(os) ==
  CASE os = "debian" -> <<"etch", "lenny", "squeeze", "wheezy", "jessie", "stretch", "buster", "bullseye", "bookworm">>
    [] os \in {"ubuntu", "xubuntu"} -> <<"lucid", "maverick", "natty", "oneiric", "precise",
         "quantal", "raring", "saucy", "trusty", "utopic", "vivid", "wily", "xenial">>
    [] os = "osx" -> <<"tiger", "leopard", "snow", "lion", "mountain lion", "mavericks", "yosemite", "el capitan">>
    [] OTHER -> <<>>
Historic(os, list) == \A i, j \in DOMAIN list :
  i < j /\ list[i] \in Rng(History(os)) /\ list[j] \in Rng(History(os)) =>
    Position(History(os), list[i]) < Position(History(os), list[j])

\* what is known about the parents of the plugins of xylem
Shipped(os) ==
  CASE os = "ubuntu" -> << <<"none">> >> [] os = "xubuntu" -> << <<"same">>, <<"none">> >>
    [] OTHER -> <<>>
ShippedNames(os) ==
  CASE os = "ubuntu" -> <<"ubuntu", "debian">>
    [] os = "xubuntu" -> <<"xubuntu", "ubuntu", "debian">> [] OTHER -> <<os>>

Verdict(r) ==
  CASE r.op = "tuples" ->
         IF r.os # r.names[1] THEN "name"
         ELSE IF r.shipped /\ r.names # ShippedNames(r.os) THEN "names"
         ELSE IF r.tuples = Tuples(r.names, IF r.shipped THEN Shipped(r.os) ELSE r.maps, r.v)
         THEN "ok" ELSE "tuples"
    [] r.op = "less" -> IF r.got = Less(r.list, r.a, r.b) THEN "ok" ELSE "order"
    [] r.op = "history" -> IF Historic(r.os, r.list) /\ Cardinality(Rng(r.list)) = Len(r.list)
                           THEN "ok" ELSE "versions are not in order"
    [] r.op = "default" -> IF Rng(r.got) = Rng(r.exp) THEN "ok" ELSE "default installers"
TNext == TStep(Verdict)
==============================================================================
