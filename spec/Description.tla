------------------------------ MODULE Description ----------------------------
(* The description of a configuration: its items in order.  An item has a    *)
(* group ("" for none), a name in it, and may be exposed on the command      *)
(* line.  How an addition asks for that: cl is "yes", "no" or "" (not said), *)
(* arg the argument name ("" if not given), meta: is a metavar given.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES items

Full(i) == IF i.group = "" THEN i.sub ELSE i.group \o "/" \o i.sub

RECURSIVE Dash(_)
Dash(s) ==
  IF s = "" THEN ""
  ELSE (IF SubSeq(s, 1, 1) \in {"_", "/"} THEN "-" ELSE SubSeq(s, 1, 1))
       \o Dash(SubSeq(s, 2, Len(s)))
Undashed(s) == IF Len(s) >= 2 /\ SubSeq(s, 1, 2) = "--" THEN SubSeq(s, 3, Len(s)) ELSE s

Exposed(cl, arg, meta) == cl = "yes" \/ (cl = "" /\ (arg # "" \/ meta))
ArgName(i, arg) == IF arg # "" THEN Undashed(arg) ELSE Dash(Full(i))
Item(group, sub, cl, arg, meta) ==
  LET i == [group |-> group, sub |-> sub]
      e == Exposed(cl, arg, meta)
  IN [group |-> group, sub |-> sub, shown |-> e, arg |-> IF e THEN ArgName(i, arg) ELSE ""]

Rng(s) == {s[k] : k \in DOMAIN s}
Groups == {i.group : i \in Rng(items)} \ {""}
\* arguments that differ only in dashes, underscores and slashes are the same
Args == {Dash(i.arg) : i \in {j \in Rng(items) : j.shown}}

Conflict(i) ==
  \/ \E j \in Rng(items) : Full(j) = Full(i)
  \/ Full(i) \in Groups
  \/ i.group # "" /\ \E j \in Rng(items) : Full(j) = i.group
  \/ i.shown /\ Dash(i.arg) \in Args

Add(i) == ~Conflict(i) /\ items' = Append(items, i)
Reject(i) == Conflict(i) /\ UNCHANGED items
==============================================================================
