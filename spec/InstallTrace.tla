---------------------------- MODULE InstallTrace ----------------------------
(* Is a recorded run of the installation one of the specification?  A trace  *)
(* has the options, how the keys resolved, and the interactions in order.    *)
(* Focus: reports are judged exactly only where they are what is asked for.  *)
EXTENDS Install, TraceKit

VARIABLE st

T == Trace[t]

InitI == TKInit /\ st = Start(T.resolved, T.rerr, T.opts)

To(S) == st' \in S

AsRoot(inst) == T.insts[inst].as_root
Sudoed(inst, cmds) == [n \in DOMAIN cmds |-> Sudo(AsRoot(inst), T.root, cmds[n])]

FixOk == st.opts.simulate => Ev.fix # "yes"

GeneralE == IsEvent("general") /\ FixOk /\ Ev.interactive = st.opts.interactive
            /\ To(General(st, Ev.inst, Ev.r))
FilterE == IsEvent("filter") /\ To(Filter(st, Ev.inst, Ev.items, Ev.r))
PreE == IsEvent("pre") /\ FixOk /\ Ev.interactive = st.opts.interactive
        /\ To(Pre(st, Ev.inst, Ev.items, Ev.r))
ComposeE ==
  /\ IsEvent("compose")
  /\ Ev.interactive = st.opts.interactive /\ Ev.reinstall = st.opts.reinstall
  /\ To(Compose(st, Ev.inst, Ev.items,
                IF Ev.r[1] = "ok" THEN <<"ok", Sudoed(Ev.inst, Ev.r[2])>> ELSE Ev.r))
AnnounceE == IsEvent("announce") /\ To(Announce(st, Ev.cmd))
CommandE == IsEvent("command") /\ To(Command(st, Ev.cmd, Ev.code))
CheckE == IsEvent("check") /\ To(Check(st, Ev.inst, Ev.item, Ev.r))

\* something was installed, updated or fixed outside of the commands
FixE == IsEvent("fix") /\ st.ph \in {"general", "pre"} /\ st.opts.fix
        /\ ~st.opts.simulate /\ UNCHANGED st

Mentions(e, report) ==
  IF e[1] = "command" THEN \A w \in Range(e[2]) : w \in Range(report.words) \/ w = "sudo"
  ELSE e[2] \in Range(report.words)
Reports ==
  /\ Ev.rkeys = st.rerr
  /\ Len(Ev.errors) = Len(st.errs)
  /\ \A n \in DOMAIN st.errs : \E m \in DOMAIN Ev.errors : Mentions(st.errs[n], Ev.errors[m])
  /\ \A m \in DOMAIN Ev.errors : \E n \in DOMAIN st.errs : Mentions(st.errs[n], Ev.errors[m])
  /\ \A m \in DOMAIN Ev.errors : "XylemError" \in Range(Ev.errors[m].types)
Focus == IOEnv.FOCUS
Return == IsEvent("return") /\ st.ph = "return" /\ UNCHANGED st
          /\ (Focus = "reports" => Reports)
Raise == IsEvent("raise") /\ st.ph = "raise" /\ UNCHANGED st
  /\ (Focus = "reports" =>
        IF st.why[1] = "prerequisite"
        THEN "InstallerPrerequisiteError" \in Range(Ev.types)
        ELSE "XylemInternalError" \in Range(Ev.types) /\ Ev.cause = st.why[2])

TInit == InitI
TNext == GeneralE \/ FilterE \/ PreE \/ ComposeE \/ AnnounceE \/ CommandE
         \/ CheckE \/ FixE \/ Return \/ Raise
=============================================================================
