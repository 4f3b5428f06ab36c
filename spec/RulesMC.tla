------------------------------- MODULE RulesMC -------------------------------
(* State machine: rules are written one by one into the (prioritised)        *)
(* sources of a database; in every reachable database every query has to     *)
(* satisfy the precedence, isolation, merge and key listing properties,      *)
(* stated here entry by entry, independently of the definition of Lookup.    *)
EXTENDS Rules, TLC, Json, IOUtils

CONSTANTS Sources, Keyset, Oses, Versions, Insts, MaxEntries, DoEmit

VARIABLE entries     \* sequence of written entries, all slots distinct

Slots ==
  {<<s, k, o, v, i>> : s \in 1..Sources, k \in Keyset,
                       o \in Oses, v \in Versions \cup {ANYV}, i \in Insts \cup {PH}}
  \cup {<<s, k, ANYOS, ANYV, i>> : s \in 1..Sources, k \in Keyset, i \in Insts}

Table == [o \in Oses |-> IF o = "u" THEN "apt" ELSE "pip"]

Tok(n) == <<"r1", "r2", "r3", "r4">>[n]

Init == entries = <<>>
Write(slot) ==
  /\ Len(entries) < MaxEntries
  /\ \A n \in 1..Len(entries) : entries[n] # slot
  \* entries are written in a canonical order (rules do not depend on it)
  /\ entries' = Append(entries, slot)

SlotSeq == SetToSeq(Slots)
Idx == [s \in Slots |-> CHOOSE n \in 1..Len(SlotSeq) : SlotSeq[n] = s]
Next == \E slot \in Slots :
  /\ IF Len(entries) = 0 THEN TRUE
     ELSE Idx[entries[Len(entries)]] < Idx[slot]
  /\ Write(slot)

\* the database described by the entries
E(n) == entries[n]
N == 1..Len(entries)
Db ==
  [s \in 1..Sources |->
    [k \in {E(n)[2] : n \in {m \in N : E(m)[1] = s}} |->
      [o \in {E(n)[3] : n \in {m \in N : E(m)[1] = s /\ E(m)[2] = k}} |->
        [v \in {E(n)[4] : n \in {m \in N : E(m)[1] = s /\ E(m)[2] = k /\ E(m)[3] = o}} |->
          [i \in {E(n)[5] : n \in {m \in N : E(m)[1] = s /\ E(m)[2] = k
                                    /\ E(m)[3] = o /\ E(m)[4] = v}} |->
            Tok(CHOOSE n \in N : E(n) = <<s, k, o, v, i>>)]]]]]

Queries == {<<k, o, v>> : k \in Keyset, o \in Oses, v \in Versions \cup {"zz"}}

\* entry n applies to query q for installer i / its rank (smaller is stronger)
AppliesTo(n, q, i) ==
  /\ E(n)[2] = q[1]
  /\ \/ E(n)[3] = q[2] /\ E(n)[4] \in {q[3], ANYV}
     \/ E(n)[3] = ANYOS
  /\ Named(E(n)[5], Table[q[2]]) = i
Rank(n) == E(n)[1] * 10 + (IF E(n)[3] = ANYOS THEN 3
                           ELSE IF E(n)[4] = ANYV THEN 2 ELSE 1)

Found(q) == Lookup(Db, q[1], q[2], q[3], Table[q[2]])

Precedence ==
  \A q \in Queries : LET f == Found(q) IN
    \A i \in DOMAIN f : \A r \in f[i] :
      \E n \in N : /\ Tok(n) = r /\ AppliesTo(n, q, i)
                   /\ \A m \in N : AppliesTo(m, q, i) => Rank(n) <= Rank(m)

Complete ==
  \A q \in Queries : LET f == Found(q) IN
    \A n \in N : \A i \in Insts : AppliesTo(n, q, i) => i \in DOMAIN f

NoPlaceholder == \A q \in Queries : PH \notin DOMAIN Found(q)

EmptyOtherwise ==
  \A q \in Queries :
    (\A n \in N, i \in Insts : ~AppliesTo(n, q, i)) => Found(q) = <<>>

KeysListed ==
  \A o \in Oses, v \in Versions \cup {"zz"} :
    Keys(Db, o, v) = {k \in Keyset : Found(<<k, o, v>>) # <<>>}

MergeFaithful ==
  LET m == Merge(Db, Table) IN
    /\ MergedPlaceholderFree(m) /\ MergedOses(m, Table)
    /\ \A q \in Queries :
         LET f == Lookup(<<m>>, q[1], q[2], q[3], "")
             g == Found(q)
         IN DOMAIN f = DOMAIN g /\ \A i \in DOMAIN f : f[i] \subseteq g[i]

\* spec -> code: every reachable database with the answers to all queries
Emit ==
  DoEmit => PrintT("@@" \o ToJson(
    [entries |-> entries,
     expect |-> SetToSeq({[q |-> q, found |-> [i \in DOMAIN Found(q) |->
                                                SetToSeq(Found(q)[i])]] : q \in Queries}),
     keys |-> SetToSeq({[o |-> o, v |-> v, keys |-> SetToSeq(Keys(Db, o, v))] :
                 o \in Oses, v \in Versions \cup {"zz"}})]))
==============================================================================
