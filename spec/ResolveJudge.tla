----------------------------- MODULE ResolveJudge ----------------------------
(* Recorded calls of resolve.                                                *)
EXTENDS Resolve, JudgeKit

Fn(f) == IF DOMAIN f = {} THEN <<>> ELSE f

OutcomesOf(r, order) ==
  [k \in RangeOf(order) |->
     Outcomes(r.w, k,
       IF k \in RangeOf(r.broken) THEN <<"fail">>
       ELSE <<"ok", Lookup(r.db, k, r.os, r.version, r.dflt)>>, r.body)]

\* all keys: the requested ones, then the others that can be looked up
Order(r) ==
  IF r.all
  THEN LET req == Dedup(r.request)
           rest == SelectSeq(r.sorted, LAMBDA k :
                      k \in Keys(r.db, r.os, r.version) \ RangeOf(req))
       IN req \o rest
  ELSE Dedup(r.request)

Verdict(r) ==
  CASE r.op = "resolve" ->
    IF r.got[1] # "ok" THEN "resolve fails altogether"
    ELSE LET order == Order(r)
             o == OutcomesOf(r, order)
             good == {r.got[2][n][1] : n \in DOMAIN r.got[2]}
             lost == RangeOf(r.got[3])
         IN IF Len(r.got[2]) + Len(r.got[3]) # Len(order)
               \/ good \cup lost # RangeOf(order) THEN "a key is lost, invented or repeated"
            ELSE IF [n \in DOMAIN r.got[2] |-> r.got[2][n][1]] # KeysIn(order, good)
                    \/ r.got[3] # KeysIn(order, lost) THEN "order"
            ELSE IF \E k \in lost : Failed \notin o[k] THEN "a key fails without reason"
            ELSE IF \E n \in DOMAIN r.got[2] :
                       o[r.got[2][n][1]] = {Failed} THEN "a key should have failed"
            ELSE IF \E n \in DOMAIN r.got[2] :
                       ~\E x \in o[r.got[2][n][1]] : x # Failed /\ x[2] = r.got[2][n][2]
                 THEN "wrong installer"
            ELSE IF RangeOf(r.told) # Contested(r.w)
                 THEN "the user is not told that a configured installer is ignored"
            ELSE IF ~RunOk(order, r.got[2], r.got[3], o) THEN "wrong packages"
            ELSE "ok"
TNext == TStep(Verdict)
==============================================================================
