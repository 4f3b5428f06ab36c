------------------------------ MODULE OverrideMC -----------------------------
(* All short texts.                                                          *)
EXTENDS Override

CONSTANT MaxLen

VARIABLES text

Chars == {"a", ":", "&", ",", " "}
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E c \in Chars : text' = Append(text, c)

P == Parse(text)
Rng(s) == {s[k] : k \in DOMAIN s}
Trimmed(s) == s = <<>> \/ (s[1] \notin Ws /\ s[Len(s)] \notin Ws)
AllTrimmed ==
  /\ Trimmed(P.name)
  /\ \A v \in Rng(P.version) : Trimmed(v)
  /\ \A fs \in Rng(P.features) : \A k \in DOMAIN fs : Trimmed(fs[k])
NoSeparators ==
  /\ "&" \notin Rng(P.name) /\ ":" \notin Rng(P.name)
  /\ \A v \in Rng(P.version) : "&" \notin Rng(v)
  /\ \A fs \in Rng(P.features) : \A k \in DOMAIN fs : "," \notin Rng(fs[k])
Given ==
  /\ P.features # <<>> <=> "&" \in Rng(text)
  /\ P.version # <<>> => ":" \in Rng(text)
\* nothing but white space is lost
NonWs(s) == SelectSeq(s, LAMBDA c : c \notin Ws)
RECURSIVE Join(_)
Join(fs) == IF fs = <<>> THEN <<>> ELSE IF Len(fs) = 1 THEN fs[1]
            ELSE fs[1] \o <<",">> \o Join(Tail(fs))
Complete == NonWs(text) = NonWs(P.name
  \o (IF P.version = <<>> THEN <<>> ELSE <<":">> \o P.version[1])
  \o (IF P.features = <<>> THEN <<>> ELSE <<"&">> \o Join(P.features[1])))
==============================================================================
