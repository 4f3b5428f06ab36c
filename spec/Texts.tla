--------------------------------- MODULE Texts -------------------------------
(* Texts and bytes, and the helpers that work on texts.  A text is a         *)
(* sequence of code points, bytes are a sequence of numbers below 256.       *)
EXTENDS Naturals, Sequences, FiniteSets

Replacement == 65533
Range(s) == {s[k] : k \in DOMAIN s}

\* which second byte may follow a first one, and how many bytes follow
Follow(b) ==
  CASE b \in 194..223 -> 1 [] b \in 224..239 -> 2 [] b \in 240..244 -> 3
    [] OTHER -> 0
Second(b) ==
  CASE b = 224 -> 160..191 [] b = 237 -> 128..159 [] b = 240 -> 144..191
    [] b = 244 -> 128..143 [] OTHER -> 128..191
\* how many of the bytes after the first belong to its character
Good(bs) ==
  LET n == Follow(bs[1])
      fits(k) == /\ Len(bs) > k
                 /\ \A j \in 1..k : bs[j + 1] \in (IF j = 1 THEN Second(bs[1]) ELSE 128..191)
  IN CHOOSE k \in 0..n : fits(k) /\ \A j \in (k + 1)..n : ~fits(j)
Value(bs) ==
  CASE Len(bs) = 1 -> bs[1]
    [] Len(bs) = 2 -> (bs[1] - 192) * 64 + (bs[2] - 128)
    [] Len(bs) = 3 -> (bs[1] - 224) * 4096 + (bs[2] - 128) * 64 + (bs[3] - 128)
    [] Len(bs) = 4 -> (bs[1] - 240) * 262144 + (bs[2] - 128) * 4096
                      + (bs[3] - 128) * 64 + (bs[4] - 128)
RECURSIVE Decode(_)
\* what is not UTF-8 is replaced, as little of it at once as possible
Decode(bs) ==
  IF bs = <<>> THEN <<>>
  ELSE LET b == bs[1]
           k == Good(bs)
           whole == b < 128 \/ (Follow(b) > 0 /\ k = Follow(b))
       IN <<IF whole THEN Value(SubSeq(bs, 1, k + 1)) ELSE Replacement>>
          \o Decode(SubSeq(bs, k + 2, Len(bs)))
\* half of a pair is no character
Half(c) == c \in 55296..57343
EncodeOne(c) ==
  IF Half(c) THEN <<63>>
  ELSE IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Encode(_)
Encode(s) == IF s = <<>> THEN <<>> ELSE EncodeOne(s[1]) \o Encode(Tail(s))

Newline == 10
RECURSIVE Times(_, _), Indented(_, _), Lines(_)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)
\* after every end of a line
Indented(s, by) ==
  IF s = <<>> THEN <<>>
  ELSE (IF s[1] = Newline THEN <<Newline>> \o by ELSE <<s[1]>>) \o Indented(Tail(s), by)
Indent(s, width, by, exclude) ==
  (IF exclude THEN <<>> ELSE Times(by, width)) \o Indented(s, Times(by, width))
Lines(s) == 1 + Cardinality({k \in DOMAIN s : s[k] = Newline})

RECURSIVE NoDuplicates(_)
\* the first of equal ones stays
NoDuplicates(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET r == NoDuplicates(SubSeq(s, 1, Len(s) - 1)) IN
       IF s[Len(s)] \in Range(r) THEN r ELSE Append(r, s[Len(s)])

\* objects as text: o.kind and what is in it
Colon == <<58, 32>>
RECURSIVE Join(_)
Join(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1]
            ELSE ts[1] \o <<44, 32>> \o Join(Tail(ts))
AsText(o) ==
  CASE o.kind = "text" -> o.text
    [] o.kind = "bytes" -> Decode(o.bytes)
    [] o.kind = "type" -> o.text
    [] o.kind = "error" -> IF o.text = <<>> THEN o.name ELSE o.name \o Colon \o o.text
    [] o.kind = "texts" -> <<91>> \o Join(o.texts) \o <<93>>
    [] o.kind = "other" -> o.text
AsBytes(o) ==
  CASE o.kind = "bytes" -> o.bytes
    [] o.kind \in {"text", "other"} -> Encode(o.text)

\* a program: whether it can be run, what it writes, and its exit status
Ran(p) == <<Decode(p.out), Decode(p.err), p.code>>
==============================================================================
