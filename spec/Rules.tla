-------------------------------- MODULE Rules --------------------------------
(* The meaning of (expanded) rules data: looking keys up in prioritised      *)
(* sources, listing keys, merging.                                           *)
(*                                                                           *)
(* A rules dict is a function key -> os -> version -> installer -> rule;     *)
(* rules are opaque tokens here.  A database is a sequence of rules dicts,   *)
(* highest priority first.  Everything is defined declaratively through the  *)
(* list of installer dicts ("layers") that apply to a query in decreasing    *)
(* priority.                                                                 *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

PH == "default_installer"     \* placeholder for the default installer
ANYOS == "any_os"
ANYV == "any_version"

Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>

\* the layers of one rules dict that apply to (key, os, version)
Layers(rules, key, os, v) ==
  LET o == Get(rules, key) IN
    << Get(Get(o, os), v), Get(Get(o, os), ANYV), Get(Get(o, ANYOS), ANYV) >>

AllLayers(db, key, os, v) ==
  FlattenSeq([s \in 1..Len(db) |-> Layers(db[s], key, os, v)])

Named(n, dflt) == IF n = PH THEN dflt ELSE n

\* the rules a layer has for installer i (two if both the placeholder and the
\* named default installer are present; which one wins is not specified)
Says(layer, i, dflt) ==
  {layer[n] : n \in {m \in DOMAIN layer : Named(m, dflt) = i}}

InstallersOf(layers, dflt) ==
  UNION {{Named(n, dflt) : n \in DOMAIN layers[x]} : x \in 1..Len(layers)}

FirstSaying(layers, i, dflt) ==
  LET x == CHOOSE x \in 1..Len(layers) :
             /\ Says(layers[x], i, dflt) # {}
             /\ \A y \in 1..(x - 1) : Says(layers[y], i, dflt) = {}
  IN Says(layers[x], i, dflt)

\* installer -> set of acceptable rules
LookupLayers(layers, dflt) ==
  [i \in InstallersOf(layers, dflt) |-> FirstSaying(layers, i, dflt)]

Lookup(db, key, os, v, dflt) == LookupLayers(AllLayers(db, key, os, v), dflt)

LookupOk(found, db, key, os, v, dflt) ==
  LET exp == Lookup(db, key, os, v, dflt) IN
    /\ DOMAIN found = DOMAIN exp
    /\ \A i \in DOMAIN exp : found[i] \in exp[i]

------------------------------------------------------------------------------
(* Listing keys *)
Applies(osdict, os, v) ==
  \/ ANYOS \in DOMAIN osdict
  \/ os \in DOMAIN osdict /\ (v \in DOMAIN osdict[os] \/ ANYV \in DOMAIN osdict[os])

Keys(db, os, v) ==
  UNION {{k \in DOMAIN db[s] : Applies(db[s][k], os, v)} : s \in 1..Len(db)}

\* first occurrences only
Dedup(seq) == 
  LET F[n \in 0..Len(seq)] ==
        IF n = 0 THEN <<>>
        ELSE IF \E m \in 1..(n-1) : seq[m] = seq[n] THEN F[n-1]
             ELSE Append(F[n-1], seq[n])
  IN F[Len(seq)]

------------------------------------------------------------------------------
(* Merging *)
KeysOf(db) == UNION {DOMAIN db[s] : s \in 1..Len(db)}
VersionsOf(db) ==
  UNION {UNION {UNION {DOMAIN db[s][k][o] : o \in DOMAIN db[s][k]} :
                  k \in DOMAIN db[s]} : s \in 1..Len(db)}

\* A merged rules dict that serves all queries (existence proof used by the
\* model; the implementation may arrange its result differently).
Pick(f) == [i \in DOMAIN f |-> CHOOSE r \in f[i] : TRUE]
Merge(db, table) ==
  [k \in KeysOf(db) |->
    [o \in (DOMAIN table \cup {ANYOS}) |->
      IF o = ANYOS
      THEN [v \in {ANYV} |->
             Pick(LookupLayers([s \in 1..Len(db) |->
                                 Get(Get(Get(db[s], k), ANYOS), ANYV)], ""))]
      ELSE [v \in (VersionsOf(db) \cup {ANYV}) |->
             Pick(Lookup(db, k, o, v, table[o]))]]]

MergedPlaceholderFree(m) ==
  \A k \in DOMAIN m : \A o \in DOMAIN m[k] : \A v \in DOMAIN m[k][o] :
     PH \notin DOMAIN m[k][o][v]

MergedOses(m, table) ==
  \A k \in DOMAIN m : DOMAIN m[k] \subseteq (DOMAIN table \cup {ANYOS})
==============================================================================
