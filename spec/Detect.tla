-------------------------------- MODULE Detect -------------------------------
(* Which OS a machine is, according to its identification: release files,    *)
(* programs, and what the platform says.  Files are sequences of words (of   *)
(* lines where lines matter), optional values are sequences of length <= 1.  *)
(* A detector says whether the machine is its OS, and which version and      *)
(* code name that has; <<>> stands for "not detected".                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Ch(s, k) == SubSeq(s, k, k)
Has(seq, x) == \E k \in DOMAIN seq : seq[k] = x
FirstAt(seq, P(_)) ==
  IF \E k \in DOMAIN seq : P(seq[k])
  THEN CHOOSE k \in DOMAIN seq : P(seq[k]) /\ \A j \in 1..(k - 1) : ~P(seq[j])
  ELSE 0
Prefix(seq, p) == Len(seq) >= Len(p) /\ SubSeq(seq, 1, Len(p)) = p

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
LowerCh(c) ==
  IF \E k \in 1..26 : Ch(Upper, k) = c
  THEN Ch(LowerCase, CHOOSE k \in 1..26 : Ch(Upper, k) = c) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))

\* the parts of a text between the single characters c
RECURSIVE Parts(_, _)
Parts(s, c) ==
  LET ks == {k \in 1..Len(s) : Ch(s, k) = c}
  IN IF ks = {} THEN <<s>>
     ELSE LET k == CHOOSE k \in ks : \A j \in ks : k <= j
          IN <<SubSeq(s, 1, k - 1)>> \o Parts(SubSeq(s, k + 1, Len(s)), c)

WordAfter(words, w) ==
  LET k == FirstAt(words, LAMBDA x : x = w)
  IN IF k = 0 \/ k = Len(words) THEN <<>> ELSE <<words[k + 1]>>
InParens(words) ==
  LET k == FirstAt(words, LAMBDA x : Ch(x, 1) = "(")
      w == SubSeq(words[k], 2, Len(words[k]))
      bare == IF w # "" /\ Ch(w, Len(w)) = ")" THEN SubSeq(w, 1, Len(w) - 1) ELSE w
  IN IF k = 0 THEN <<>> ELSE <<Lower(bare)>>
\* the value of a line "key = value"
Value(line, key) ==
  LET p == key \o " = "
  IN IF Len(line) > Len(p) /\ SubSeq(line, 1, Len(p)) = p
     THEN <<SubSeq(line, Len(p) + 1, Len(line))>> ELSE <<>>

Digits == "0123456789"
Digit(c) == \E k \in 1..10 : Ch(Digits, k) = c
IsNumber(s) == s # "" /\ \A k \in 1..Len(s) : Digit(Ch(s, k))
RECURSIVE Number(_)
Number(s) == IF s = "" THEN 0
  ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1))
       + (CHOOSE k \in 1..10 : Ch(Digits, k) = Ch(s, Len(s))) - 1

\* a machine m: rel, issue, brand (optional files), prog (optional program:
\* whether it can be run, and what it prints), lsb (optional <<name, version,
\* code name>>), sys (<<system, version, release>>)
MacNames == <<"tiger", "leopard", "snow", "lion", "mountain lion", "mavericks", "yosemite">>
MacName(version) ==
  LET p == Parts(version, ".")
  IN IF /\ Len(p) \in 2..3 /\ \A k \in DOMAIN p : IsNumber(p[k])
        /\ Number(p[1]) = 10 /\ Number(p[2]) \in 4..10
     THEN <<MacNames[Number(p[2]) - 3]>> ELSE <<>>

Words(f) == IF f = <<>> THEN <<>> ELSE f[1]
Runs(m) == m.prog # <<>> /\ m.prog[1].runs
Says(m, key) == m.prog[1].prints[key]

Is(kind, m) ==
  CASE kind = "lsb" -> m.lsb # <<>> /\ m.lsb[1][1] = m.name
    [] kind = "fedora" -> Prefix(Words(m.rel), <<"Fedora">>)
    [] kind = "rhel" -> Prefix(Words(m.rel), <<"Red", "Hat", "Enterprise">>)
    [] kind = "gentoo" -> Prefix(Words(m.rel), <<"Gentoo", "Base">>)
    [] kind = "arch" -> m.rel # <<>>
    [] kind = "suse" -> m.brand # <<>> /\ Prefix(Parts(m.brand[1][1], " "), <<"openSUSE">>)
    [] kind = "osx" -> m.prog # <<>>
    [] kind = "qnx" -> Runs(m) /\ Says(m, "name") = "QNX"
    [] kind = "freebsd" -> Runs(m) /\ Says(m, "name") = "FreeBSD"
    [] kind = "windows" -> m.sys[1] = "Windows"

Version(kind, m) ==
  IF ~Is(kind, m) THEN <<>> ELSE
  CASE kind = "lsb" -> <<m.lsb[1][2]>>
    [] kind = "fedora" -> WordAfter(Words(m.issue), "release")
    [] kind = "rhel" -> WordAfter(Words(m.rel), "release")
    [] kind = "gentoo" -> IF Len(m.rel[1]) >= 5 THEN <<m.rel[1][5]>> ELSE <<>>
    [] kind = "arch" -> <<"">>
    [] kind = "suse" -> IF Len(m.brand[1]) = 2 THEN Value(m.brand[1][2], "VERSION") ELSE <<>>
    [] kind = "osx" -> IF Runs(m) /\ Says(m, "release") # "" THEN <<Says(m, "release")>> ELSE <<>>
    [] kind \in {"qnx", "freebsd"} -> <<Says(m, "release")>>
    [] kind = "windows" -> <<m.sys[2]>>

Codename(kind, m) ==
  IF ~Is(kind, m) THEN <<>> ELSE
  CASE kind = "lsb" -> <<m.lsb[1][3]>>
    [] kind \in {"fedora", "rhel"} -> InParens(Words(m.rel))
    [] kind \in {"gentoo", "arch", "qnx", "freebsd"} -> <<"">>
    [] kind = "suse" ->
         LET ls == Words(m.rel)
             k == FirstAt(ls, LAMBDA x : Value(x, "CODENAME") # <<>>)
         IN IF k = 0 THEN <<>> ELSE Value(ls[k], "CODENAME")
    [] kind = "osx" -> IF Runs(m) THEN MacName(Says(m, "release")) ELSE <<>>
    [] kind = "windows" -> <<m.sys[3]>>

\* the plugins of xylem: what they look at, and what their version is
PluginLsb == [debian |-> "debian", ubuntu |-> "Ubuntu", xubuntu |-> "Xubuntu"]
PluginIs(p, m) ==
  IF p = "osx" THEN Is("osx", m) ELSE Is("lsb", [m EXCEPT !.name = PluginLsb[p]])
PluginVersion(p, m) ==
  IF p = "osx" THEN Codename("osx", m) ELSE Codename("lsb", [m EXCEPT !.name = PluginLsb[p]])

-----------------------------------------------------------------------------
(* Lists of detectors.  dets: detector -> [is, version, codename].           *)
VARIABLES defaults, insts
dvars == <<defaults, insts>>

DInit == defaults = <<>> /\ insts = <<>>
Register(name, d) == defaults' = <<<<name, d>>>> \o defaults /\ UNCHANGED insts
New(given) ==
  /\ insts' = Append(insts, IF given = <<>> THEN defaults ELSE given[1])
  /\ UNCHANGED defaults
AddTo(i, name, d) ==
  /\ insts' = [insts EXCEPT ![i] = <<<<name, d>>>> \o @]
  /\ UNCHANGED defaults

\* what an instance detects: <<name, version, code name>>, or <<>>
Detected(dets, list) ==
  LET k == FirstAt(list, LAMBDA x : dets[x[2]].is)
      d == dets[list[k][2]]
  IN IF k = 0 \/ d.version = <<>> \/ d.codename = <<>> THEN <<>>
     ELSE << <<list[k][1], d.version[1], d.codename[1]>> >>
\* what an instance may know of it; nothing is required if parts are missing
Known(dets, list, what) ==
  LET k == FirstAt(list, LAMBDA x : dets[x[2]].is)
      d == dets[list[k][2]]
      v == CASE what = "name" -> <<list[k][1]>>
             [] what = "version" -> d.version
             [] what = "codename" -> d.codename
  IN IF k = 0 THEN {<<>>}
     ELSE IF Detected(dets, list) # <<>> THEN {v} ELSE {<<>>, v}
Overridden(text) ==
  LET p == Parts(text, ":")
      Part(n) == IF Len(p) >= n THEN p[n] ELSE ""
  IN IF Part(1) = "" THEN <<>> ELSE << <<Part(1), Part(2), Part(3)>> >>
Lookup(list, name) ==
  LET k == FirstAt(list, LAMBDA x : x[1] = name)
  IN IF k = 0 THEN <<>> ELSE <<list[k][2]>>
==============================================================================
