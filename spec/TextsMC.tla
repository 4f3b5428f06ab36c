-------------------------------- MODULE TextsMC ------------------------------
EXTENDS Texts, TLC

CONSTANTS MaxBytes, MaxChars

VARIABLES part, s
Bytes == {65, 128, 143, 144, 159, 160, 191, 192, 194, 224, 226, 237, 240, 244, 245}
Chars == {10, 65, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}
Init == part \in {"bytes", "text"} /\ s = <<>>
Next == /\ UNCHANGED part
        /\ IF part = "bytes" THEN Len(s) < MaxBytes /\ \E b \in Bytes : s' = Append(s, b)
           ELSE Len(s) < MaxChars /\ \E c \in Chars : s' = Append(s, c)

\* texts survive; bytes do unless something was replaced
RoundTrip ==
  IF part = "text" THEN Decode(Encode(s)) = s
  ELSE Replacement \in Range(Decode(s)) \/ Encode(Decode(s)) = s
\* no code point that is none, and replacing only what has to be
Proper == part = "bytes" =>
  /\ \A c \in Range(Decode(s)) : c <= 1114111 /\ c \notin 55296..57343
  /\ Len(Decode(s)) <= Len(s)
\* what follows a complete text does not depend on it
Apart == part = "bytes" => \A c \in {65, 2047, 65535} :
  /\ Decode(Encode(<<c>>) \o s) = <<c>> \o Decode(s)
  /\ Decode(s \o <<65>>) = Append(Decode(s), 65)
Indents == part = "text" =>
  /\ Lines(Indent(s, 2, <<32>>, FALSE)) = Lines(s)
  /\ Len(Indent(s, 2, <<32>>, FALSE)) = Len(s) + 2 * Lines(s)
  /\ Indent(s, 2, <<32>>, FALSE) = <<32, 32>> \o Indent(s, 2, <<32>>, TRUE)
  /\ Indent(s, 0, <<32>>, TRUE) = s
Uniques ==
  LET u == NoDuplicates(s) IN
  /\ Range(u) = Range(s) /\ Cardinality(Range(u)) = Len(u)
  /\ NoDuplicates(u) = u
  /\ \A i \in DOMAIN u : \A j \in DOMAIN u : i < j =>
       LET first(x) == CHOOSE k \in DOMAIN s : s[k] = x /\ \A n \in 1..(k - 1) : s[n] # x
       IN first(u[i]) < first(u[j])
==============================================================================
