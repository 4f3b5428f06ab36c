------------------------------- MODULE Override ------------------------------
(* The text that overrides the OS: name, version and features.  Texts are    *)
(* sequences of characters, ws is the set of white space characters.  An     *)
(* optional part is a sequence of length 0 or 1.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Ws

RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ Head(s) \in Ws THEN LStrip(Tail(s)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ s[Len(s)] \in Ws THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))

\* position of the first c in s, 0 if there is none
First(s, c) ==
  IF \E k \in DOMAIN s : s[k] = c
  THEN CHOOSE k \in DOMAIN s : s[k] = c /\ \A j \in 1..(k - 1) : s[j] # c
  ELSE 0
Before(s, k) == SubSeq(s, 1, k - 1)
After(s, k) == SubSeq(s, k + 1, Len(s))

RECURSIVE SplitAll(_, _)
SplitAll(s, c) ==
  LET k == First(s, c)
  IN IF k = 0 THEN <<Strip(s)>>
     ELSE <<Strip(Before(s, k))>> \o SplitAll(After(s, k), c)

Parse(s) ==
  LET a == First(s, "&")
      os == IF a = 0 THEN s ELSE Before(s, a)
      fs == Strip(After(s, a))
      c == First(os, ":")
  IN [name |-> Strip(IF c = 0 THEN os ELSE Before(os, c)),
      version |-> IF c = 0 THEN <<>> ELSE <<Strip(After(os, c))>>,
      features |-> IF a = 0 THEN <<>>
                   ELSE IF fs = <<>> THEN << <<>> >> ELSE << SplitAll(fs, ",") >>]

\* which features are in force: those of the text, or the configured ones
InForce(p, configured) == IF p.features # <<>> THEN p.features ELSE configured
==============================================================================
