------------------------------ MODULE SudoJudge ------------------------------
(* Recorded uses of get_install_commands, and the root defaults of the       *)
(* built-in installers.                                                      *)
EXTENDS Install, JudgeKit

NeedsRoot == [apt |-> TRUE, macports |-> TRUE, pip |-> TRUE, homebrew |-> FALSE, fake |-> FALSE]

Verdict(r) ==
  CASE r.op = "commands" ->
         IF r.got = [n \in DOMAIN r.composed |-> Sudo(r.as_root, r.root, r.composed[n])]
         THEN "ok" ELSE "commands are not as composed with sudo exactly where needed"
    [] r.op = "default" ->
         IF r.as_root = NeedsRoot[r.inst] THEN "ok"
         ELSE "default of as_root of a built-in installer"
    [] r.op = "unchanged" ->
         IF r.before = r.after THEN "ok" ELSE "the composed commands were changed"
TNext == TStep(Verdict)
=============================================================================
