------------------------------- MODULE ScopesMC ------------------------------
(* All short programs over the scopes.                                       *)
EXTENDS Scopes, Json

CONSTANTS MaxSteps, MaxDepth, DoEmit

VARIABLES prog, entered   \* entered: the state at the entry of each scope

Init == SInit("d1") /\ prog = <<>> /\ entered = <<>>

Do(a) == Len(prog) < MaxSteps /\ prog' = Append(prog, a)
Now == [cwd |-> cwd, out |-> out, err |-> err, temps |-> temps]
Enter == Len(stack) < MaxDepth /\ entered' = Append(entered, Now)
Next ==
  \/ Enter /\ \E d \in {"d1", "d3"} : EnterCd(d) /\ Do(<<"cd", d>>)
  \/ Enter /\ EnterTmp /\ Do(<<"tmp">>)
  \/ Enter /\ EnterStd /\ Do(<<"std">>)
  \/ Leave /\ Do(<<"leave">>) /\ entered' = SubSeq(entered, 1, Len(entered) - 1)
  \/ /\ UNCHANGED entered
     /\ \/ Raise("e1") /\ Do(<<"raise", "e1">>)
        \/ Catch /\ Do(<<"catch">>)
        \/ \E d \in {"d2"} \cup temps : d # cwd /\ Chdir(d) /\ Do(<<"chdir", d>>)
        \/ \E w \in {"out", "err"} : Write(w, "a") /\ Do(<<"write", w>>)
        \/ SwapOut /\ Do(<<"swap">>)
        \/ \E t \in temps : cwd # t /\ Remove(t) /\ Do(<<"remove", t>>)
        \/ Vanish(cwd) /\ Do(<<"vanish", cwd>>)

\* what a scope does not change stays as the program left it
Restored == [][Len(stack') < Len(stack) =>
  LET e == entered[Len(entered)]  k == stack[Len(stack)].kind IN
  /\ k \in {"cd", "tmp"} => cwd' = e.cwd
  /\ k = "std" => out' = e.out /\ err' = e.err
  /\ k = "tmp" => temps' = e.temps
  /\ exc' = exc]_<<svars, prog, entered>>
Outside == stack = <<>> => temps = {} /\ err = "E0"
OwnStreams == \A i, j \in DOMAIN stack :
  i # j /\ stack[i].kind = "std" /\ stack[j].kind = "std" =>
    stack[i].err # stack[j].err
InForce == \A t \in temps : \E i \in DOMAIN stack : stack[i].dir = t
Emit == (DoEmit /\ Len(prog) = MaxSteps) => PrintT("@@" \o ToJson(prog))
==============================================================================
