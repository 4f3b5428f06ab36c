---------------------------- MODULE DescriptionTrace -------------------------
(* Recorded additions; the whole description is observed after each one.     *)
EXTENDS Description, TraceKit

TInit == TKInit /\ items = <<>>

Sees ==
  /\ Ev.list = [k \in DOMAIN items' |-> Full(items'[k])]
  /\ Ev.same   \* items are the same objects wherever they are found
  /\ Rng(Ev.items) = Rng(Ev.list) /\ Len(Ev.items) = Len(Ev.list)
  /\ Rng(Ev.groups) = {<<i.group, i.sub>> : i \in {j \in Rng(items') : j.group # ""}}
  /\ Rng(Ev.groupnames) = {i.group : i \in Rng(items')} \ {""}
  /\ Rng(Ev.args) = {<<i.arg, Full(i)>> : i \in {j \in Rng(items') : j.shown}}
  \* of all the arguments tried, a parser knows exactly these, and each sets
  \* its own item and no other
  /\ Rng(Ev.known) = {<<i.arg, Full(i)>> : i \in
                        {j \in Rng(items') : j.shown /\ j.arg \in Rng(Ev.tried)}}
TItem == Item(Ev.group, Ev.sub, Ev.cl, Ev.arg, Ev.meta)
TNext ==
  \/ IsEvent("add") /\ Ev.types = <<>> /\ Add(TItem) /\ Sees
  \/ IsEvent("add") /\ "ConfigDescriptionError" \in Rng(Ev.types) /\ Reject(TItem) /\ Sees
==============================================================================
