------------------------------ MODULE ResolveMC ------------------------------
(* The resolver handles one key after the other; all small worlds.           *)
EXTENDS Resolve, Json

CONSTANT DoEmit

VARIABLES w, found, todo, results, errors

Insts == {"a", "b", "c"}
Body == [good |-> <<"ok", <<"p">>>>, bad |-> <<"bad">>]
Found1 == {<<"fail">>} \cup
  {<<"ok", f>> : f \in UNION {[S -> {{"good"}, {"bad"}}] : S \in SUBSET Insts}}
Found2 == {<<"fail">>, <<"ok", [i \in {"b"} |-> {"good"}]>>,
           <<"ok", [i \in {"c", "a"} |-> {"good"}]>>}

Loaded == {<<"a">>, <<"a", "b">>, <<"c", "b", "a">>}
Cores == {<<>>, <<"a">>, <<"b", "a">>, <<"a", "b">>}

World ==
  {[loaded |-> l, core |-> SelectSeq(c, LAMBDA i : i \in RangeOf(l)),
    additional |-> IF add THEN SelectSeq(l, LAMBDA i : i \notin RangeOf(c)) ELSE <<>>,
    from |-> IF pin = "none" THEN <<>>
             ELSE IF pin = "ab" THEN <<<<"a", <<"k1">>>>, <<"b", <<"zz", "k1">>>>>>
             ELSE <<<<pin, <<"k1", "zz">>>>>>] :
     l \in Loaded, c \in Cores, add \in BOOLEAN, pin \in {"none", "a", "b", "x", "ab"}}

Init ==
  /\ w \in World
  /\ \E f1 \in Found1, f2 \in Found2 :
       found = [k \in {"k1", "k2"} |-> IF k = "k1" THEN f1 ELSE f2]
  /\ todo \in {<<"k1", "k2">>, <<"k2", "k1">>}
  /\ results = <<>> /\ errors = <<>>

Step ==
  /\ todo # <<>>
  /\ todo' = Tail(todo)
  /\ \E o \in Outcomes(w, todo[1], found[todo[1]], Body) :
       IF o = Failed
       THEN errors' = Append(errors, todo[1]) /\ UNCHANGED results
       ELSE results' = Append(results, <<todo[1], o[2], o[3]>>) /\ UNCHANGED errors
  /\ UNCHANGED <<w, found>>
Next == Step

Done == Len(results) + Len(errors)
\* every key exactly once, in order
Partition ==
  LET good == {results[n][1] : n \in DOMAIN results} IN
  /\ good \cap RangeOf(errors) = {}
  /\ Cardinality(good \cup RangeOf(errors)) = Done
  /\ todo = <<>> => good \cup RangeOf(errors) = {"k1", "k2"}
\* the installer used has a rule, is loaded and in use unless pinned
Usable == \A n \in DOMAIN results :
  LET k == results[n][1] i == results[n][2] IN
  /\ found[k][1] = "ok" /\ i \in DOMAIN found[k][2]
  /\ i \in RangeOf(w.loaded)
  /\ IF Pinned(w, k) # {} THEN i \in Pinned(w, k)
     ELSE i \in RangeOf(w.core) \cup RangeOf(w.additional)
\* an additional installer is used only where no core installer could be
CoreFirst == \A n \in DOMAIN results :
  LET k == results[n][1] i == results[n][2] IN
  Pinned(w, k) = {} =>
    (i \in RangeOf(w.additional) \ RangeOf(w.core) =>
        RangeOf(w.core) \cap DOMAIN found[k][2] = {})
    /\ \A m \in DOMAIN w.core :
         (w.core[m] = i) => \A j \in 1..(m - 1) : w.core[j] \notin DOMAIN found[k][2]
\* a key for which a usable installer has a good rule only fails for a reason
NoNeedlessFailure == \A k \in RangeOf(errors) :
  \/ found[k][1] = "fail"
  \/ Pinned(w, k) # {}
  \/ (RangeOf(w.core) \cup RangeOf(w.additional)) \cap DOMAIN found[k][2] = {}
  \/ \E i \in DOMAIN found[k][2] : found[k][2][i] = {"bad"}
\* of several installers configured for a key the first one counts
FirstPin == \A k \in {"k1", "k2"} :
  /\ Cardinality(Pinned(w, k)) <= 1
  /\ k \in Contested(w) => Pinned(w, k) = {w.from[1][1]}
\* k1 does not influence k2 (k2 is never bad and never pinned)
Independent == \A n \in DOMAIN results : results[n][1] = "k2" =>
  Outcomes(w, "k2", found["k2"], Body) # {Failed}

Emit == (DoEmit /\ Done = 0 /\ todo[1] = "k1") =>
  PrintT("@@" \o ToJson([w |-> w, found |-> [k \in DOMAIN found |->
     IF found[k][1] = "fail" THEN <<"fail">>
     ELSE <<"ok", [i \in DOMAIN found[k][2] |-> CHOOSE r \in found[k][2][i] : TRUE]>>]]))
==============================================================================
