------------------------------ MODULE DetectMC -------------------------------
(* All small identifications of machines, and all short histories of lists   *)
(* of detectors.                                                             *)
EXTENDS Detect, Json

CONSTANTS MaxWords, MaxSteps, DoEmit

VARIABLES part, m, last

RelWords == {"Fedora", "Red", "Hat", "Enterprise", "Gentoo", "Base", "release", "7", "(Ab)", "(B"}
Brands == {"openSUSE", "openSUSE 1", "SUSE", "VERSION = 1", "VERSION", "VERSION = "}
Lines == {"CODENAME = x", "CODENAME", "CODENAME = z w", "NAME = y"}
Outs == {"10.9", "10.10.1", "10", "10.x", "11.4", "10.3", ""}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
None == [rel |-> <<>>, issue |-> <<>>, brand |-> <<>>, prog |-> <<>>, lsb |-> <<>>,
         sys |-> <<"Linux", "1", "2">>, name |-> "Ubuntu"]
NoDets == [d \in {"d1", "d2", "d3"} |-> [is |-> FALSE, version |-> <<>>, codename |-> <<>>]]

Init ==
  /\ DInit /\ last = <<>>
  /\ \/ part = "rel" /\ \E w \in SeqsUpTo(RelWords, MaxWords) : m = [None EXCEPT !.rel = <<w>>]
     \/ /\ part = "fedora"
        /\ \E w \in SeqsUpTo({"Fedora", "release", "20", "(Ab)"}, 2),
              i \in {<<>>} \cup {<<x>> : x \in SeqsUpTo({"F", "release", "20"}, 3)} :
             m = [None EXCEPT !.rel = <<w>>, !.issue = i]
     \/ /\ part = "suse"
        /\ \E b \in {<<>>} \cup {<<x>> : x \in SeqsUpTo(Brands, 3) \ {<<>>}},
              r \in {<<>>} \cup {<<x>> : x \in SeqsUpTo(Lines, 2) \ {<<>>}} :
             m = [None EXCEPT !.brand = b, !.rel = r]
     \/ /\ part = "prog"
        /\ \E n \in {"QNX", "FreeBSD", "Linux", ""}, r \in Outs, runs \in BOOLEAN :
             m = [None EXCEPT !.prog = <<[runs |-> runs, prints |-> [name |-> n, release |-> r]]>>]
     \/ /\ part = "lsb"
        /\ \E n \in {"debian", "Ubuntu", "Xubuntu", "ubuntu", ""}, v \in {"", "14.04"}, c \in {"", "trusty"} :
             m = [None EXCEPT !.lsb = << <<n, v, c>> >>]
     \/ part = "none" /\ m = None
     \/ /\ part = "lists"
        /\ \E d \in [{"d1", "d2", "d3"} -> {[is |-> i, version |-> v, codename |-> <<"c">>] :
                                              i \in BOOLEAN, v \in {<<>>, <<"1">>}}] :
             m = d
History ==
  /\ part = "lists" /\ Len(last) < MaxSteps
  /\ \/ \E n \in {"a", "b"}, d \in {"d1", "d2", "d3"} :
          \/ Register(n, d) /\ last' = Append(last, <<"register", n, d>>)
          \/ \E i \in DOMAIN insts : AddTo(i, n, d) /\ last' = Append(last, <<"add", ToString(i), n, d>>)
     \/ New(<<>>) /\ last' = Append(last, <<"new">>)
  /\ UNCHANGED <<part, m>>
Next == History

Kinds == {"lsb", "fedora", "rhel", "gentoo", "arch", "suse", "osx", "qnx", "freebsd", "windows"}
\* nothing is said about an OS that is not there
OnlyThere == part # "lists" => \A k \in Kinds :
  Version(k, m) # <<>> \/ Codename(k, m) # <<>> => Is(k, m)
\* release files and programs identify at most one OS
OneOnly == part # "lists" =>
  /\ Cardinality({k \in {"fedora", "rhel", "gentoo"} : Is(k, m)}) <= 1
  /\ Cardinality({k \in {"qnx", "freebsd"} : Is(k, m)}) <= 1
  /\ Cardinality({p \in {"debian", "ubuntu", "xubuntu"} : PluginIs(p, m)}) <= 1
\* a later detector takes precedence, only in its own list and later ones
Precedence == [][part = "lists" =>
  /\ Len(insts') > Len(insts) => SubSeq(insts', 1, Len(insts)) = insts
  /\ defaults' # defaults => insts' = insts /\ Detected(m, defaults')
       = LET d == Head(defaults') IN
         IF m[d[2]].is
         THEN IF m[d[2]].version = <<>> THEN <<>> ELSE << <<d[1], "1", "c">> >>
         ELSE Detected(m, defaults)
  /\ insts' # insts /\ Len(insts') = Len(insts) => defaults' = defaults /\
       Cardinality({k \in DOMAIN insts : insts'[k] # insts[k]}) = 1]_<<dvars, part, m, last>>
Emit == (DoEmit /\ (part = "lists" => Len(last) = MaxSteps)) =>
  PrintT("@@" \o ToJson([part |-> part, m |-> m, last |-> last]))
==============================================================================
