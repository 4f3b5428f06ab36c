------------------------------ MODULE DownloadMC -----------------------------
(* Every sequence of outcomes, every number of retries.                      *)
EXTENDS Download, Json

CONSTANTS Retries, DoEmit

VARIABLES retry, seq

Init == retry \in Retries \cup {-1} /\ DInit(retry) /\ seq = <<>>
Next ==
  \/ \E o \in {"ok", "busy", "timeout", "other"} :
       Attempt(o) /\ seq' = Append(seq, o) /\ UNCHANGED retry
  \/ Wait /\ UNCHANGED <<retry, seq>>
Spec == Init /\ [][Next]_<<dvars, retry, seq>> /\ WF_<<dvars, retry, seq>>(Next)

Max(a, b) == IF a > b THEN a ELSE b
Bounded == tries <= Max(retry, 0) + 1
OnlyTransient == \A k \in 1..(Len(seq) - 1) : seq[k] \in Transient
WaitBeforeEach == waits = IF st = "try" THEN tries ELSE IF tries = 0 THEN 0 ELSE tries - 1
First == st = "ok" <=> (\E k \in DOMAIN seq : seq[k] = "ok")
NotEarly == st = "failed" => last = "other" \/ tries = Max(retry, 0) + 1
Ends == <>(st \in {"ok", "failed"})
Emit == (DoEmit /\ st \in {"ok", "failed"}) =>
  PrintT("@@" \o ToJson([retry |-> retry, seq |-> seq]))
==============================================================================
