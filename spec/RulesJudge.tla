----------------------------- MODULE RulesJudge -----------------------------
(* Judges recorded lookups, key listings, resolve-all orders and merges.     *)
EXTENDS Rules, JudgeKit

LookupV(q, db) ==
  IF q.obs[1] # "ok" THEN "lookup raises an error instead of giving a result"
  ELSE LET found == q.obs[2]
           exp == Lookup(db, q.key, q.os, q.v, q.dflt)
       IN IF PH \in DOMAIN found THEN "placeholder for the default installer in the result"
          ELSE IF \E i \in DOMAIN exp : i \notin DOMAIN found
               THEN "a rule that applies is not found"
          ELSE IF \E i \in DOMAIN found : i \notin DOMAIN exp
               THEN "a rule is found although nothing applies"
          ELSE IF ~LookupOk(found, db, q.key, q.os, q.v, q.dflt)
               THEN "rule found is not the one with the highest precedence"
          ELSE "ok"

KeysV(q, db) ==
  IF q.obs[1] # "ok" THEN "listing keys raises an error"
  ELSE LET ks == q.obs[2] IN
    IF Cardinality({ks[n] : n \in 1..Len(ks)}) # Len(ks) THEN "a key is listed twice"
    ELSE IF {ks[n] : n \in 1..Len(ks)} \ Keys(db, q.os, q.v) # {}
         THEN "a key is listed that does not apply"
    ELSE IF Keys(db, q.os, q.v) \ {ks[n] : n \in 1..Len(ks)} # {}
         THEN "a key that applies is not listed"
    ELSE "ok"

\* order of keys handled by resolve; sorted is the sorted list of all keys
AllV(q, db) ==
  IF q.obs[1] # "ok" THEN "resolving all keys raises an error"
  ELSE LET listed == Keys(db, q.os, q.v)
           exp == IF q.all THEN Dedup(q.requested \o SelectSeq(q.sorted, LAMBDA k : k \in listed))
                  ELSE Dedup(q.requested)
           IsIn(x, s) == \E n \in 1..Len(s) : s[n] = x
           ok == q.obs[2]  err == q.obs[3]
           rules(k) == Lookup(db, k, q.os, q.v, q.dflt)
       IN \* a key is resolvable iff the (only, core) installer has a rule
          IF ok # SelectSeq(exp, LAMBDA k : q.dflt \in DOMAIN rules(k))
          THEN "results of resolving all keys are not the listed keys in order"
          ELSE IF err # SelectSeq(exp, LAMBDA k : q.dflt \notin DOMAIN rules(k))
          THEN "errors of resolving all keys are not the remaining keys in order"
          ELSE "ok"

MergeV(r) ==
  IF r.obs[1] # "ok" THEN "merging fails"
  ELSE LET m == r.obs[2]
           ks == KeysOf(r.db) \cup {"other-key"}
           vs == (VersionsOf(r.db) \ {ANYV}) \cup {"zz"}
       IN IF ~r.unchanged THEN "merging modifies its inputs"
          ELSE IF ~MergedPlaceholderFree(m) THEN "placeholder in merged rules"
          ELSE IF ~MergedOses(m, r.table) THEN "unsupported os in merged rules"
          ELSE IF \E k \in ks, o \in DOMAIN r.table, v \in vs :
                    ~LookupOk([i \in DOMAIN Lookup(<<m>>, k, o, v, r.table[o]) |->
                                CHOOSE x \in Lookup(<<m>>, k, o, v, r.table[o])[i] : TRUE],
                              r.db, k, o, v, r.table[o])
               THEN "lookup in merged rules differs from looking through the individual ones"
          ELSE "ok"

First(qs, db, V(_, _)) ==
  LET badq == {n \in 1..Len(qs) : V(qs[n], db) # "ok"}
  IN IF badq = {} THEN "ok"
     ELSE V(qs[CHOOSE n \in badq : \A m \in badq : n <= m], db)

Verdict(r) ==
  CASE r.kind = "lookup" -> First(r.queries, r.db, LookupV)
    [] r.kind = "keys" -> First(r.queries, r.db, KeysV)
    [] r.kind = "all" -> First(r.queries, r.db, AllV)
    [] r.kind = "merge" -> MergeV(r)

TNext == TStep(Verdict)
=============================================================================
