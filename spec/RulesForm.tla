------------------------------ MODULE RulesForm ------------------------------
(* The written forms of rules: expansion of shorthands (C03), the well-      *)
(* formedness of expanded rules (C05) and what it means that a compacted     *)
(* rules file keeps its meaning (C04).                                       *)
(*                                                                           *)
(* Values are tagged tuples: <<"n">> null, <<"b", bool>>, <<"i", digits>>,   *)
(* <<"f", text>>, <<"s", text>>, <<"l", seq>>, <<"d", function>>, <<"o", ..>>*)
(* (anything else).  Keys of dictionaries that are not text are marked by a  *)
(* leading bracket.                                                          *)
EXTENDS Rules

Null == <<"n">>
Str(x) == <<"s", x>>
Lst(x) == <<"l", x>>
Dct(f) == <<"d", f>>
Err == <<"err">>
IsDict(x) == x[1] = "d"
IsList(x) == x[1] = "l"
IsShort(x) == x[1] \in {"n", "s", "l"}       \* the shorthands for packages
Sing(k, x) == [y \in {k} |-> x]

\* null, string or list -> list
AsList(x) == CASE x[1] = "n" -> Lst(<<>>) [] x[1] = "s" -> Lst(<<x>>) [] OTHER -> x

Without(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]

------------------------------------------------------------------------------
(* Expansion.  The result is Err or the canonical form. *)

NormRule(f) ==
  LET pk == IF "packages" \in DOMAIN f
            THEN [f EXCEPT !["packages"] = AsList(@)] ELSE f
      dp == IF "depends" \in DOMAIN pk
            THEN [pk EXCEPT !["depends"] = AsList(@)] ELSE pk
  IN IF "depends" \in DOMAIN dp /\ dp["depends"] = Lst(<<>>)
     THEN Without(dp, "depends") ELSE dp

ExpandRule(x) ==
  IF IsShort(x) THEN Dct(NormRule(Sing("packages", AsList(x))))
  ELSE IF IsDict(x) THEN Dct(NormRule(x[2]))
  ELSE Err

MapDict(f, F(_, _)) ==
  LET g == [k \in DOMAIN f |-> F(k, f[k])]
  IN IF \E k \in DOMAIN g : g[k] = Err THEN Err ELSE Dct(g)

ExpandInstallers(x) ==
  IF IsShort(x) THEN Dct(Sing(PH, ExpandRule(x)))
  ELSE IF IsDict(x) THEN MapDict(x[2], LAMBDA k, y : ExpandRule(y))
  ELSE Err

ExpandVersions(os, x) ==
  IF IsShort(x) THEN Dct(Sing(ANYV, ExpandInstallers(x)))
  ELSE IF ~IsDict(x) THEN Err
  ELSE IF os # ANYOS THEN MapDict(x[2], LAMBDA k, y : ExpandInstallers(y))
  ELSE IF ANYV \notin DOMAIN x[2]
       THEN MapDict(Sing(ANYV, x), LAMBDA k, y : ExpandInstallers(y))
  ELSE IF DOMAIN x[2] = {ANYV}
       THEN MapDict(x[2], LAMBDA k, y : ExpandInstallers(y))
  ELSE Err

ExpandOs(x) ==
  IF IsDict(x) THEN MapDict(x[2], LAMBDA k, y : ExpandVersions(k, y)) ELSE Err

ExpandRules(x) ==
  IF x = Null THEN Dct(<<>>)
  ELSE IF IsDict(x) THEN MapDict(x[2], LAMBDA k, y : ExpandOs(y))
  ELSE Err

BadKeys(x) == {k \in DOMAIN x[2] : ExpandOs(x[2][k]) = Err}

------------------------------------------------------------------------------
(* Well-formedness of expanded rules *)

Keywords == {ANYOS, ANYV, PH, "unset_installers", "any_key"}
Exceptions == {"mountain lion"}
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
  "q","r","s","t","u","v","w","x","y","z","A","B","C","D","E","F","G","H","I",
  "J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
  "é","ú","ß","中","Ω","ñ"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Allowed == Letters \cup Digits \cup {"_", ".", "+", "-", "’"}

Identifier(s) ==
  \/ s \in Exceptions
  \/ Len(s) > 0 /\ \A n \in 1..Len(s) : SubSeq(s, n, n) \in Allowed

Name(s, kw) == Identifier(s) /\ s \notin (Keywords \ kw)
IsText(k) == Len(k) = 0 \/ SubSeq(k, 1, 1) # "⟦"

WfRule(x) ==
  /\ IsDict(x)
  /\ \A k \in DOMAIN x[2] : IsText(k)
  /\ "packages" \in DOMAIN x[2] => IsList(x[2]["packages"])
  /\ "depends" \in DOMAIN x[2] =>
       LET d == x[2]["depends"] IN
         IsList(d) /\ \A n \in 1..Len(d[2]) : d[2][n][1] = "s" /\ Name(d[2][n][2], {})

WfInstallers(x, ph) ==
  /\ IsDict(x)
  /\ \A k \in DOMAIN x[2] : /\ Name(k, IF ph THEN {PH} ELSE {})
                            /\ WfRule(x[2][k])

WfVersions(x, ph) ==
  /\ IsDict(x)
  /\ \A k \in DOMAIN x[2] : Name(k, {ANYV}) /\ WfInstallers(x[2][k], ph)

WfOs(x, ph) ==
  /\ IsDict(x)
  /\ \A k \in DOMAIN x[2] : /\ Name(k, {ANYOS})
                            /\ WfVersions(x[2][k], ph /\ k # ANYOS)

WellFormed(x, ph) ==
  /\ IsDict(x)
  /\ \A k \in DOMAIN x[2] : Name(k, {}) /\ WfOs(x[2][k], ph)

\* any-OS entries for particular versions have no meaning; whether they are
\* accepted is not specified
OddAnyOs(x) ==
  /\ IsDict(x)
  /\ \E k \in DOMAIN x[2] :
       /\ IsDict(x[2][k]) /\ ANYOS \in DOMAIN x[2][k][2]
       /\ IsDict(x[2][k][2][ANYOS])
       /\ DOMAIN x[2][k][2][ANYOS][2] # {ANYV}

\* a raw document is usable iff it expands to well-formed rules
Usable(x) == LET e == ExpandRules(x) IN e # Err /\ WellFormed(e, TRUE)

------------------------------------------------------------------------------
(* Meaning.  Plain is the function of functions that Rules.tla works on.     *)
Plain(x) ==
  [k \in DOMAIN x[2] |->
    [o \in DOMAIN x[2][k][2] |->
      [v \in DOMAIN x[2][k][2][o][2] |->
        [i \in DOMAIN x[2][k][2][o][2][v][2] |->
           NormRule(x[2][k][2][o][2][v][2][i][2])]]]]

\* both the placeholder and the named default installer in one place
Ambiguous(x, table) ==
  \E k \in DOMAIN x[2] : \E o \in DOMAIN x[2][k][2] : o \in DOMAIN table /\
    \E v \in DOMAIN x[2][k][2][o][2] :
      {PH, table[o]} \subseteq DOMAIN x[2][k][2][o][2][v][2]

QOses(p) == UNION {DOMAIN p[k] \ {ANYOS} : k \in DOMAIN p} \cup {"otheros"}
QVers(p) == (UNION {UNION {DOMAIN p[k][o] : o \in DOMAIN p[k]} : k \in DOMAIN p}
             \ {ANYV}) \cup {"otherversion"}

SameMeaning(p, q, table) ==
  \A k \in DOMAIN p \cup DOMAIN q \cup {"other-key"} :
    \A o \in QOses(p) \cup QOses(q) : \A v \in QVers(p) \cup QVers(q) :
      LET d == IF o \in DOMAIN table THEN table[o] ELSE "some-default"
      IN Lookup(<<p>>, k, o, v, d) = Lookup(<<q>>, k, o, v, d)

\* A compact notation (existence proof for the model): drop everything that
\* expansion restores.
CompactRule(r) == IF DOMAIN r[2] = {"packages"} /\ IsList(r[2]["packages"])
                  THEN r[2]["packages"] ELSE r
CompactInst(x, d) ==
  LET named == [i \in {Named(n, d) : n \in DOMAIN x[2]} |->
                  CompactRule(x[2][CHOOSE n \in DOMAIN x[2] : Named(n, d) = i])]
  IN IF DOMAIN named = {d} /\ ~IsDict(named[d]) THEN named[d] ELSE Dct(named)
CompactVers(x, d) ==
  IF DOMAIN x[2] = {ANYV} /\ ~IsDict(CompactInst(x[2][ANYV], d))
  THEN CompactInst(x[2][ANYV], d)
  ELSE Dct([v \in DOMAIN x[2] |-> CompactInst(x[2][v], d)])
Compact(x, table) ==
  Dct([k \in DOMAIN x[2] |->
    Dct([o \in DOMAIN x[2][k][2] |->
      IF o = ANYOS THEN x[2][k][2][o]
      ELSE CompactVers(x[2][k][2][o], IF o \in DOMAIN table THEN table[o] ELSE PH)])])
==============================================================================
