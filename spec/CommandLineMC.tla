----------------------------- MODULE CommandLineMC ---------------------------
(* All runs over a small world, in histories of up to MaxRuns runs.          *)
EXTENDS CommandLine, Json

CONSTANTS MaxRuns, Faulty, Few, DoEmit

VARIABLES hist

Rules1 == << [key |-> "a", insts |-> << [inst |-> "fake", pkgs |-> <<"fa", "fb">>] >>],
             [key |-> "b", insts |-> << [inst |-> "pip", pkgs |-> <<"pb">>],
                                        [inst |-> "brew", pkgs |-> <<"bb">>] >>],
             [key |-> "c", insts |-> << [inst |-> "brew", pkgs |-> <<"bc">>] >>] >>
Rules2 == << [key |-> "a", insts |-> << [inst |-> "pip", pkgs |-> <<"pa">>],
                                        [inst |-> "fake", pkgs |-> <<"fc">>] >>] >>
Keys == {"a", "b", "c"}
KeyLists == {<<>>} \cup {<<k>> : k \in Keys} \cup {<<k, m>> : k \in Keys, m \in Keys}
Flags(c) == CASE c = "install" -> {"reinstall", "dry-run", "continue-on-error", "fix-prerequisites"}
            [] c = "resolve" -> {"all", "show-default-installer"}
            [] c = "update" -> {"dry-run"} [] OTHER -> {}
Commands == {"resolve", "install", "lookup", "update", "compact", "none", "unknown", "help"}
Faults == IF Faulty THEN {"", "option", "config", "source", "os", "interrupt"} ELSE {""}
Runs == UNION { {[cmd |-> c, keys |-> k, fault |-> f, flags |-> fl] :
     k \in (IF c \in {"resolve", "install", "lookup"} THEN KeyLists ELSE {<<>>}),
     f \in (IF c \in {"none", "unknown", "help"} THEN {""} ELSE Faults), fl \in SUBSET Flags(c)} : c \in Commands}

Init ==
  /\ w \in [order : {<<"a", "b", "c">>}, core : IF Few THEN {<<"fake">>} ELSE {<<"fake", "pip">>, <<"pip", "fake">>, <<"fake">>},
            extra : IF Few THEN {<<"pip">>} ELSE {<<>>, <<"pip">>},
            default : IF Few THEN {"apt"} ELSE {"fake", "apt"},
            behave : {<<>>, << <<"fa", "fails">> >>, << <<"fb", "lies">>, <<"pb", "fails">> >>}]
  /\ rules = Rules1 /\ cache \in {<<>>, <<Rules1>>} /\ installed \in {{}, {"fb"}} /\ dir \in BOOLEAN
  /\ (installed = {} \/ dir)
  /\ Start0 /\ hist = 0
vars == <<w, world, runvars, hist>>
Next ==
  \/ hist < MaxRuns /\ hist' = hist + 1 /\ \E run \in Runs : Begin(run)
  \/ (Step \/ Finish) /\ UNCHANGED hist
  \/ hist \in 1..(MaxRuns - 1) /\ UNCHANGED hist /\ \E n \in {Rules2, Broken} : Edit(n)

Done == phase = "stopped"
AllResolvable == \A k \in Rng(AllKeys) : Resolvable(k)
\* the status tells the truth
ResolveTruth == (Done /\ r.cmd = "resolve" /\ r.fault = "" /\ r.keys # <<>> /\ cache # <<>>) =>
  /\ (status = "ok") = AllResolvable
  /\ {x[1] : x \in Rng(out)} = {k \in Rng(AllKeys) : Resolvable(k)}
InstallTruth == (Done /\ r.cmd = "install" /\ status = "ok") =>
  /\ AllResolvable
  /\ Flag("dry-run") \/ \A x \in Rng(res) : Rng(x[3]) \subseteq installed
InstallFailure == (Done /\ r.cmd = "install" /\ r.fault = "" /\ status = "message") =>
  \/ ~AllResolvable \/ (UsesDir /\ ~dir)
  \/ \E x \in Rng(res) : \E p \in Rng(x[3]) : Does(p) # "ok"
DryRun == (Flag("dry-run") /\ Done) => ran = <<>>
FaultFails == (Done /\ r.fault # "") => \/ status \in {"usage", "message"}
                                        \/ r.fault = "interrupt" /\ status = "failure"
                                        \/ r.fault = "os" /\ ~NeedsKeys
                                        \/ r.fault = "source" /\ ~UsesSources
OnlyInstallInstalls == [][installed' # installed => r.cmd = "install" /\ ~Flag("dry-run")]_vars
OnlyUpdateCaches == [][cache' # cache => r.cmd = "update" /\ ~Flag("dry-run")]_vars
NeverUninstalls == [][installed \subseteq installed']_vars
Emit == (DoEmit /\ phase = "parse" /\ hist = 1) => PrintT("@@" \o ToJson(
  [w |-> w, cached |-> (cache # <<>>), installed |-> installed, dir |-> dir, run |-> r, rules |-> rules]))
==============================================================================
