------------------------------ MODULE JudgeKit ------------------------------
(* Conformance of recorded executions, one record per step.  A module that   *)
(* judges records extends this one and defines                               *)
(*    TNext == TStep(Verdict)                                                *)
(* where Verdict(rec) is "ok" or the name of the violated clause.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES ti, bad

Trace == JsonDeserialize(IOEnv.TRACE)

TInit == ti = 0 /\ bad = <<>>

TStep(V(_)) ==
  /\ ti < Len(Trace)
  /\ ti' = ti + 1
  /\ bad' = LET v == V(Trace[ti + 1])
            IN IF v = "ok" THEN bad ELSE Append(bad, <<ti + 1, v>>)

TReport == ti = Len(Trace) => JsonSerialize(IOEnv.OUT, bad)
=============================================================================
