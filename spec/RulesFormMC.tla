----------------------------- MODULE RulesFormMC -----------------------------
(* The way of a rules document into the database, as a state machine:        *)
(* a raw document is expanded, verified and then used (or rejected).  All    *)
(* documents of a bounded grammar with one key and one OS entry are initial  *)
(* states.                                                                   *)
EXTENDS RulesForm, TLC, Json, IOUtils

CONSTANTS Level, DoEmit      \* Level 1: small grammar, 2: larger

VARIABLES doc, form, phase

Atoms == {Null, Str("a"), <<"i", "1">>, <<"b", TRUE>>, Lst(<<>>),
          Lst(<<Str("a"), Str("b")>>), Dct(<<>>)}

Opt(k, vals) == {<<>>} \cup {Sing(k, v) : v \in vals}
Plus(fs, gs) == {[y \in DOMAIN f \cup DOMAIN g |->
                    IF y \in DOMAIN f THEN f[y] ELSE g[y]] : f \in fs, g \in gs}

Small == {Null, Str("a"), Lst(<<Str("a")>>), Lst(<<>>), <<"i", "1">>}
RuleDicts == {Dct(f) : f \in Plus(Opt("packages", Small),
                 Plus(Opt("depends", Small \cup {Lst(<<Str("bad key")>>),
                                                 Lst(<<<<"i", "1">>>>)}),
                      IF Level = 1 THEN {<<>>} ELSE Opt("x", {Null, Str("a")})))}
RuleVals == Atoms \cup RuleDicts
InstVals == Atoms
  \cup {Dct(Sing(i, r)) : i \in {"apt", PH} , r \in RuleVals}
  \cup {Dct(f) : f \in Plus({Sing("apt", r) : r \in Small}, {Sing(PH, r) : r \in Small})}
  \cup {Dct(Sing(i, Lst(<<>>))) : i \in {"any_version", "any_os", "a b", "", "1", "packages"}}
VersVals == Atoms
  \cup {Dct(Sing(v, x)) : v \in {ANYV, "p"}, x \in InstVals}
  \cup (IF Level = 1 THEN {} ELSE
        {Dct(f) : f \in Plus({Sing(ANYV, x) : x \in Small \cup {Dct(<<>>), Dct(Sing("pip", Null))}},
                             {Sing("p", x) : x \in InstVals})})
  \cup {Dct(f) : f \in Plus({Sing(ANYV, x) : x \in Atoms}, {Sing("p", x) : x \in Atoms})}
  \cup {Dct(Sing(v, Lst(<<>>))) : v \in {"any_os", PH, "any_key", "10.04", "a:b", "apt"}}
OsVals == Atoms
  \cup {Dct(Sing(o, x)) : o \in {"u", ANYOS}, x \in VersVals}
  \cup {Dct(Sing(o, Lst(<<>>))) : o \in {"any_version", "mountain lion", "os x", "unset_installers"}}
Docs == Atoms
  \cup {Dct(Sing("k", x)) : x \in OsVals}
  \cup {Dct(Sing(k, Dct(<<>>))) : k \in {"any_os", "any_key", "a/b", "k-1.2+x_y", "é", ""}}

Init == doc \in Docs /\ form = doc /\ phase = "raw"
ExpandStep ==
  /\ phase = "raw"
  /\ form' = ExpandRules(form)
  /\ phase' = IF form' = Err THEN "rejected" ELSE "expanded"
  /\ UNCHANGED doc
VerifyStep ==
  /\ phase = "expanded"
  /\ phase' = IF WellFormed(form, TRUE) THEN "used" ELSE "rejected"
  /\ UNCHANGED <<doc, form>>
Next == ExpandStep \/ VerifyStep

Idempotent == form # Err /\ phase # "raw" => ExpandRules(form) = form
\* what is used has the canonical shape on all levels
Canonical ==
  phase = "used" =>
    \A k \in DOMAIN form[2] : \A o \in DOMAIN form[2][k][2] :
      \A v \in DOMAIN form[2][k][2][o][2] :
        /\ o = ANYOS => v = ANYV /\ PH \notin DOMAIN form[2][k][2][o][2][v][2]
        /\ \A i \in DOMAIN form[2][k][2][o][2][v][2] :
             LET r == form[2][k][2][o][2][v][2][i] IN
               /\ IsDict(r)
               /\ "packages" \in DOMAIN r[2] => IsList(r[2]["packages"])
               /\ "depends" \in DOMAIN r[2] => r[2]["depends"] # Lst(<<>>)
Table == [o \in {"u"} |-> "apt"]
CompactKeepsMeaning ==
  phase = "used" /\ ~Ambiguous(form, Table) =>
     LET e == ExpandRules(Compact(form, Table)) IN
       e # Err /\ SameMeaning(Plain(form), Plain(e), Table)
Emit ==
  DoEmit /\ phase \in {"used", "rejected"} =>
     PrintT("@@" \o ToJson([doc |-> doc, form |-> form,
                            used |-> (phase = "used")]))
==============================================================================
