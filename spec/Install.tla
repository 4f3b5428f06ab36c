------------------------------ MODULE Install -------------------------------
(* One run of the installation of resolved keys: which installers are asked  *)
(* for what, which commands are executed, and what is returned.              *)
(* The state is a record st; every operator below gives the set of possible  *)
(* successor states of one interaction with an installer or the system       *)
(* (empty: the interaction must not happen).  The last argument r of an      *)
(* interaction is how the environment answered.                              *)
(*   opts : [cont, reinstall, simulate, fix, interactive]                    *)
EXTENDS Naturals, Sequences, FiniteSets

Range(q) == {q[i] : i \in DOMAIN q}

\* consecutive items of the same installer form one batch
RECURSIVE Squash(_)
Squash(rs) ==
  IF Len(rs) <= 1 THEN rs
  ELSE LET r == Squash(Tail(rs)) IN
       IF rs[1].inst = r[1].inst
       THEN <<[inst |-> rs[1].inst, items |-> rs[1].items \o r[1].items]>> \o Tail(r)
       ELSE <<rs[1]>> \o r

RECURSIVE ItemsOf(_, _)
ItemsOf(rs, inst) ==
  IF rs = <<>> THEN <<>>
  ELSE (IF rs[1].inst = inst THEN rs[1].items ELSE <<>>) \o ItemsOf(Tail(rs), inst)

Insts(rs) == {rs[i].inst : i \in DOMAIN rs}

FixArg(o) == IF o.fix /\ o.simulate THEN "simulate" ELSE IF o.fix THEN "yes" ELSE "no"

\* every command needs root privileges iff its installer says so
Sudo(asroot, root, cmd) ==
  IF asroot /\ ~root /\ ~(cmd # <<>> /\ cmd[1] = "sudo") THEN <<"sudo">> \o cmd ELSE cmd

Base(o, rerr) ==
  [ph |-> "return", gen |-> {}, rest |-> <<>>, out |-> <<>>, pre |-> {},
   batch |-> [inst |-> "", items |-> <<>>], cmds |-> <<>>, checks |-> <<>>,
   failed |-> FALSE, errs |-> <<>>, why |-> <<>>, opts |-> o, rerr |-> rerr]

\* ---- phases ------------------------------------------------------------------
Finish(st) == [st EXCEPT !.ph = "return"]
Surface(st, kind, tok) == [st EXCEPT !.ph = "raise", !.why = <<kind, tok>>]

NextBatch(st) ==
  IF st.rest = <<>> THEN Finish(st)
  ELSE [st EXCEPT !.ph = "compose", !.batch = st.rest[1], !.rest = Tail(st.rest),
                  !.cmds = <<>>, !.checks = <<>>, !.failed = FALSE]

ToInstall(st) == NextBatch([st EXCEPT !.rest = Squash(st.out)])

ToPre(st) ==
  IF st.errs # <<>> /\ ~st.opts.cont THEN Finish(st)
  ELSE IF st.out = <<>> THEN Finish(st)
  ELSE [st EXCEPT !.ph = "pre", !.pre = Insts(st.out)]

ToFilter(st) ==
  IF st.opts.reinstall THEN ToPre([st EXCEPT !.out = st.rest])
  ELSE [st EXCEPT !.ph = "filter"]

\* resolved: sequence of [inst, items] in the order of resolution
Start(resolved, rerr, o) ==
  LET st == [Base(o, rerr) EXCEPT !.rest = Squash(resolved)] IN
  IF rerr # <<>> /\ ~o.cont THEN st
  ELSE IF st.rest = <<>> THEN st
  ELSE [st EXCEPT !.ph = "general", !.gen = Insts(resolved)]

\* ---- interactions --------------------------------------------------------------
\* r: "ok" or "unsatisfied"
General(st, inst, r) ==
  IF st.ph # "general" \/ inst \notin st.gen THEN {}
  ELSE IF r # "ok" THEN {Surface(st, "prerequisite", "")}
  ELSE LET n == [st EXCEPT !.gen = @ \ {inst}]
       IN {IF n.gen = {} THEN ToFilter(n) ELSE n}

\* r: <<"ok", uninstalled items>>, <<"err", token>> or <<"boom", token>>
Filter(st, inst, items, r) ==
  IF st.ph # "filter" \/ st.rest = <<>> THEN {}
  ELSE IF st.rest[1].inst # inst \/ st.rest[1].items # items THEN {}
  ELSE LET n == [st EXCEPT !.rest = Tail(@)]
           Go(x) == IF x.rest = <<>> THEN ToPre(x) ELSE x
       IN CASE r[1] = "ok" ->
                 {Go(IF r[2] = <<>> THEN n
                     ELSE [n EXCEPT !.out = Append(@, [inst |-> inst, items |-> r[2]])])}
            [] r[1] = "err" ->
                 LET e == [n EXCEPT !.errs = Append(@, <<"filter", r[2]>>)]
                     all == [e EXCEPT !.out = Append(@, [inst |-> inst, items |-> items])]
                 IN \* nothing is known about these items: attempt them all
                    IF st.opts.cont THEN {Go(all)}
                    ELSE {Go(e), Finish(e)}
            [] r[1] = "boom" -> {Surface(n, "internal", r[2])}

Pre(st, inst, items, r) ==
  IF st.ph # "pre" \/ inst \notin st.pre THEN {}
  ELSE IF items # ItemsOf(st.out, inst) THEN {}
  ELSE IF r # "ok" THEN {Surface(st, "prerequisite", "")}
  ELSE LET n == [st EXCEPT !.pre = @ \ {inst}]
       IN {IF n.pre = {} THEN ToInstall(n) ELSE n}

AfterBatch(st) ==
  IF st.failed /\ ~st.opts.cont THEN Finish(st) ELSE NextBatch(st)

AfterCommands(st) ==
  IF st.opts.simulate THEN AfterBatch(st)
  ELSE [st EXCEPT !.ph = "check", !.checks = st.batch.items]

\* r: <<"ok", commands>>, <<"err", token>> or <<"boom", token>>
Compose(st, inst, items, r) ==
  IF st.ph # "compose" \/ st.batch.inst # inst \/ st.batch.items # items THEN {}
  ELSE CASE r[1] = "ok" ->
              {IF r[2] = <<>> THEN AfterBatch(st)
               ELSE [st EXCEPT !.ph = "commands", !.cmds = r[2]]}
         [] r[1] = "err" ->
              {AfterBatch([st EXCEPT !.errs = Append(@, <<"compose", r[2]>>),
                                     !.failed = TRUE])}
         [] r[1] = "boom" -> {Surface(st, "internal", r[2])}

\* a command is executed (or, when simulating, announced)
Announce(st, cmd) ==
  IF st.ph # "commands" \/ ~st.opts.simulate \/ st.cmds[1] # cmd THEN {}
  ELSE LET n == [st EXCEPT !.cmds = Tail(@)]
       IN {IF n.cmds = <<>> THEN AfterCommands(n) ELSE n}

Command(st, cmd, code) ==
  IF st.ph # "commands" \/ st.opts.simulate \/ st.cmds[1] # cmd THEN {}
  ELSE LET n == [st EXCEPT !.cmds = Tail(@)]
           f == [n EXCEPT !.errs = Append(@, <<"command", cmd>>), !.failed = TRUE]
       IN IF code # 0 /\ ~st.opts.cont THEN {Finish(f)}
          ELSE LET x == IF code # 0 THEN f ELSE n
               IN {IF x.cmds = <<>> THEN AfterCommands(x) ELSE x}

\* success check of one item; r: <<"yes">>, <<"no">>, <<"err", tok>>, <<"boom", tok>>
Check(st, inst, item, r) ==
  IF st.ph # "check" \/ st.batch.inst # inst \/ st.checks[1] # item THEN {}
  ELSE LET n == [st EXCEPT !.checks = Tail(@)]
           e == CASE r[1] = "no" -> <<<<"undetected", item>>>>
                  [] r[1] = "err" -> <<<<"check", r[2]>>>>
                  [] OTHER -> <<>>
           x == [n EXCEPT !.errs = @ \o e, !.failed = @ \/ e # <<>>]
       IN IF r[1] = "boom" THEN {Surface(n, "internal", r[2])}
          ELSE {IF x.checks = <<>> THEN AfterBatch(x) ELSE x}
=============================================================================
