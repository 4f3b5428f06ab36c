----------------------------- MODULE ErrorTextMC -----------------------------
(* All ways to make up to MaxErrors errors out of each other.                *)
EXTENDS ErrorText, Json

CONSTANTS MaxErrors, DoEmit

VARIABLES prog   \* how they were made

Init == heap = <<>> /\ prog = <<>>

Make(how, frames, k) ==
  /\ Len(heap) < MaxErrors
  /\ Create("e", frames, k)
  /\ prog' = Append(prog, [how |-> how, of |-> k])
Next ==
  \/ Make("create", 0, 0)
  \/ Make("raise", 1, 0)
  \/ \E k \in DOMAIN heap :
       \/ Make("chain", 0, k)
       \/ Make("from", 2, k)
  \* raised while another error is handled: that is not its cause
  \/ \E k \in DOMAIN heap : Len(heap) < MaxErrors /\ Create("e", 1, 0)
       /\ prog' = Append(prog, [how |-> "while", of |-> k])
  \/ \E k \in DOMAIN heap : heap[k].frames = 0 /\ Raise(k, 1)
       /\ prog' = Append(prog, [how |-> "again", of |-> k])

Chains == {Chain(heap, e) : e \in DOMAIN heap}
Once == \A c \in Chains : \A i, j \in DOMAIN c : i # j => c[i] # c[j]
FromOldest == \A c \in Chains : heap[c[1]].cause = 0 /\
  \A i \in 2..Len(c) : heap[c[i]].cause = c[i - 1]
EndsInError == \A e \in DOMAIN heap : Chain(heap, e)[Len(Chain(heap, e))] = e
NoTracebacks == \A e \in DOMAIN heap, ch \in BOOLEAN, lim \in 0..1 :
  LET p == Parts(heap, e, "no", 1, lim, ch)
  IN \A k \in DOMAIN p : ~p[k][2]
Alone == \A e \in DOMAIN heap, how \in {"no", "own", "given"} :
  LET p == Parts(heap, e, how, 1, 0, TRUE)
  IN <<p[Len(p)]>> = Parts(heap, e, how, 1, 0, FALSE)
Complete == \A e \in DOMAIN heap, how \in {"no", "own", "given"} :
  Len(Parts(heap, e, how, 1, 1, TRUE)) = Len(Chain(heap, e))
Emit == (DoEmit /\ Len(heap) = MaxErrors) => PrintT("@@" \o ToJson(prog))
==============================================================================
