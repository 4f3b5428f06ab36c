------------------------------ MODULE TraceKit ------------------------------
(* Trace validation for state machines.  Trace is a sequence of traces, each *)
(* a record with a field "events" (a sequence of event records).  Every      *)
(* trace is one initial state; l is the next event to be matched.  A TLC     *)
(* register per trace keeps the furthest l reached (needs -workers 1), and   *)
(* the postcondition writes them out: a trace is accepted iff                *)
(* l = Len(events) + 1 was reached.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES t, l

Trace == JsonDeserialize(IOEnv.TRACE)

Events == Trace[t].events

TKInit == t \in 1..Len(Trace) /\ l = 1

ASSUME \A k \in 1..Len(Trace) : TLCSet(k, 0)

IsEvent(e) == l <= Len(Events) /\ Events[l].op = e /\ l' = l + 1 /\ t' = t

Ev == Events[l]

TProgress == IF l > TLCGet(t) THEN TLCSet(t, l) ELSE TRUE

TReport == JsonSerialize(IOEnv.OUT, [k \in 1..Len(Trace) |-> TLCGet(k)])
=============================================================================
