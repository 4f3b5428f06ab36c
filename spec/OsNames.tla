-------------------------------- MODULE OsNames ------------------------------
(* Names and versions of an OS with parents, and the order of its versions.  *)
(* An optional version is a sequence of length 0 or 1.  maps[k] says what a  *)
(* version of the k-th name is for the (k+1)-th: <<"none">> (unknown),       *)
(* <<"same">>, or <<"map", pairs>>.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Rng(s) == {s[k] : k \in DOMAIN s}
Translate(m, v) ==
  IF v = <<>> \/ m[1] = "none" THEN <<>>
  ELSE IF m[1] = "same" THEN v
  ELSE LET hits == {k \in DOMAIN m[2] : m[2][k][1] = v[1]}
       IN IF hits = {} THEN <<>> ELSE m[2][CHOOSE k \in hits : TRUE][2]

RECURSIVE VersionAt(_, _, _)
VersionAt(maps, v, k) ==
  IF k = 1 THEN v ELSE Translate(maps[k - 1], VersionAt(maps, v, k - 1))
Tuples(names, maps, v) == [k \in DOMAIN names |-> <<names[k], VersionAt(maps, v, k)>>]

\* the order of versions is their order in the list
Position(list, v) == CHOOSE k \in DOMAIN list : list[k] = v
Less(list, a, b) ==
  IF a \notin Rng(list) \/ b \notin Rng(list) THEN "unknown"
  ELSE IF Position(list, a) < Position(list, b) THEN "yes" ELSE "no"
==============================================================================
