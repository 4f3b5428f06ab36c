------------------------------- MODULE Commands ------------------------------
(* The commands of xylem, which are entry points of installed distributions, *)
(* and what a command line does with them.                                   *)
(* An entry point e: name, title (what it is called by), kind ("valid", or   *)
(* why it is of no use: "notdict", "broken", "incomplete", "failing" (its    *)
(* arguments or configuration cannot be set up)), result (how its main       *)
(* ends), id.                                                                *)
(* A command line ln: cmd ("" for none), help, bad (an argument nobody       *)
(* knows), x and keys (arguments of the command), opt (argument for a        *)
(* configuration item of the command), alone (the command's own program).    *)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == {s[k] : k \in DOMAIN s}
Names(eps) == {e.name : e \in Range(eps)}
\* of entry points with the same name, the first one counts
Counts(eps, k) == \A j \in 1..(k - 1) : eps[j].name # eps[k].name
Works(eps, k) == Counts(eps, k) /\ eps[k].kind = "valid"
\* and of those that can be used and have the same title as well
Callable(eps, k) ==
  Works(eps, k) /\ \A j \in 1..(k - 1) : Works(eps, j) => eps[j].title # eps[k].title
Usable(eps) == {eps[k].title : k \in {i \in DOMAIN eps : Callable(eps, i)}}
Called(eps, t) == eps[CHOOSE k \in DOMAIN eps : Callable(eps, k) /\ eps[k].title = t]
Private(n) == SubSeq(n, 1, 1) = "_"
\* what help offers
Offered(eps) == {n \in Usable(eps) : ~Private(n)}
Useless(eps) == {eps[k] : k \in {i \in DOMAIN eps : Counts(eps, i) /\ ~Callable(eps, i)}}
\* everything of no use is reported by its name or title, and nothing else is
ReportedRight(eps, words) ==
  /\ \A e \in Useless(eps) : {e.name, e.title} \cap words # {}
  /\ words \subseteq UNION {{e.name, e.title} : e \in Useless(eps)}

Results == {"none", "zero", "three", "error", "interrupt", "eof"}
Exit(result) ==
  CASE result \in {"none", "zero"} -> 0 [] result = "three" -> 3 [] OTHER -> 1

\* id 0: no command was run
Outcome(eps, ln) ==
  LET e == Called(eps, ln.cmd)
      idle(code) == [exit |-> code, ran |-> 0, x |-> <<>>, keys |-> <<>>,
                     opt |-> "", message |-> FALSE]
  IN IF ln.cmd = "" THEN idle(IF ln.help THEN 0 ELSE 2)
     ELSE IF ln.cmd \notin Usable(eps) THEN idle(2)
     ELSE IF ln.help THEN idle(0)
     ELSE IF ln.bad THEN idle(2)
     ELSE [exit |-> Exit(e.result), ran |-> e.id, x |-> ln.x, keys |-> ln.keys,
           opt |-> IF ln.opt = <<>> THEN "default" ELSE ln.opt[1],
           message |-> e.result = "error"]
==============================================================================
