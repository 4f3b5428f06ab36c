------------------------------- MODULE Resolve -------------------------------
(* Resolving requested keys to installer rules.                              *)
(*                                                                           *)
(* A world w is a record: loaded (sequence of installer names), core         *)
(* (sequence), additional (set), from (sequence of pairs of an installer and *)
(* the keys configured to be installed from it; the first one counts).  A lookup result is <<"fail">>   *)
(* or <<"ok", installer -> set of acceptable rules>>.  body maps a rule to   *)
(* <<"bad">> (wrong structure) or <<"ok", packages>>.                        *)
EXTENDS Rules, TLC

RangeOf(q) == {q[n] : n \in DOMAIN q}

Failed == <<"fail">>
Claims(w, k) == {n \in DOMAIN w.from : k \in RangeOf(w.from[n][2])}
Pinned(w, k) ==
  IF Claims(w, k) = {} THEN {}
  ELSE {w.from[CHOOSE n \in Claims(w, k) : \A m \in Claims(w, k) : n <= m][1]}
\* the user learns of the keys configured for several installers
Contested(w) ==
  {k \in UNION {RangeOf(w.from[n][2]) : n \in DOMAIN w.from} :
     Cardinality(Claims(w, k)) > 1}

Use(i, rules, body) ==
  {IF body[r][1] = "bad" THEN Failed ELSE <<"ok", i, body[r][2]>> : r \in rules}

FirstCore(w, L) ==
  w.core[CHOOSE n \in DOMAIN w.core :
           /\ w.core[n] \in DOMAIN L
           /\ \A m \in 1..(n - 1) : w.core[m] \notin DOMAIN L]

\* Acceptable outcomes for one key.  Where several additional installers have
\* a rule, any of them is.
Outcomes(w, k, res, body) ==
  IF res[1] = "fail" \/ DOMAIN res[2] = {} THEN {Failed}
  ELSE LET L == res[2]
           pins == Pinned(w, k)
           more == RangeOf(w.additional) \cap DOMAIN L
       IN IF pins # {}
          THEN UNION {IF i \in RangeOf(w.loaded) /\ i \in DOMAIN L
                      THEN Use(i, L[i], body) ELSE {Failed} : i \in pins}
          ELSE IF RangeOf(w.core) \cap DOMAIN L # {}
          THEN LET i == FirstCore(w, L) IN Use(i, L[i], body)
          ELSE IF more # {} THEN UNION {Use(i, L[i], body) : i \in more}
          ELSE {Failed}

\* results: sequence of <<key, installer, packages>>; errors: sequence of keys
KeysIn(q, S) == SelectSeq(q, LAMBDA k : k \in S)
RunOk(order, results, errors, outcomes) ==
  LET good == {results[n][1] : n \in DOMAIN results}
      lost == RangeOf(errors)
  IN /\ good \cap lost = {}
     /\ good \cup lost = RangeOf(order)
     /\ [n \in DOMAIN results |-> results[n][1]] = KeysIn(order, good)
     /\ errors = KeysIn(order, lost)
     /\ \A n \in DOMAIN results :
          <<"ok", results[n][2], results[n][3]>> \in outcomes[results[n][1]]
     /\ \A k \in lost : Failed \in outcomes[k]
==============================================================================
