----------------------------- MODULE HelpTextMC -----------------------------
(* All short texts: every text is built token by token and laid out.         *)
EXTENDS HelpText, TLC, Json
CONSTANTS MaxTokens, DoEmit
VARIABLES text, width, done

Word(s) == [t |-> "w", f |-> <<s>>, raw |-> FALSE, rest |-> ""]
Words == {Word("a"), Word("bcd"),
          [t |-> "w", f |-> <<"ef-", "gh">>, raw |-> FALSE, rest |-> ""],
          [t |-> "w", f |-> <<"R|">>, raw |-> TRUE, rest |-> ""],
          [t |-> "w", f |-> <<"R|i">>, raw |-> TRUE, rest |-> "i"]}
Seps == {[t |-> "sp", n |-> 1], [t |-> "sp", n |-> 3]} \cup
        {[t |-> "nl", n |-> k] : k \in 1..4}
(* blanks and line breaks may alternate *)
May(tok) == IF text = <<>> THEN tok.t # "nl"
            ELSE tok.t # text[Len(text)].t
Init == text = <<>> /\ width \in {5, 8} /\ done = FALSE
Next == \/ /\ ~done /\ Len(text) < MaxTokens
           /\ \E tok \in Words \cup Seps : May(tok) /\ text' = Append(text, tok)
           /\ UNCHANGED <<width, done>>
        \/ /\ ~done /\ text # <<>> /\ IsWord(text[Len(text)])
           /\ done' = TRUE /\ UNCHANGED <<text, width>>

Lines == Layout(text, width)
RECURSIVE NoBlanks(_)
NoBlanks(s) == IF s = "" THEN ""
               ELSE (IF SubSeq(s, 1, 1) = " " THEN "" ELSE SubSeq(s, 1, 1))
                    \o NoBlanks(SubSeq(s, 2, Len(s)))
AllText == Cat([i \in DOMAIN Lines |-> NoBlanks(Lines[i])])
(* the words of a text, without markers *)
RECURSIVE Expected(_)
Expected(ps) ==
  IF ps = <<>> THEN ""
  ELSE LET p == Head(ps)
           i == FirstWord(p)
           ws == SelectSeq(IF IsRaw(p) THEN SubSeq(p, i + 1, Len(p)) ELSE p, IsWord)
       IN (IF IsRaw(p) THEN p[i].rest ELSE "") \o
          Cat([j \in DOMAIN ws |-> Cat(ws[j].f)]) \o Expected(Tail(ps))
(* every word is there, in order, and nothing else *)
NothingLost == done => AllText = Expected(Paragraphs(text))
AnyRaw == \E i \in DOMAIN Paragraphs(text) : IsRaw(Paragraphs(text)[i])
(* ordinary text keeps to the width unless one word is too long *)
Narrow == (done /\ ~AnyRaw) =>
  \A i \in DOMAIN Lines : Len(Lines[i]) <= width
(* as many empty lines as paragraph breaks *)
EmptyLines == (done /\ ~AnyRaw) =>
  Cardinality({i \in DOMAIN Lines : Lines[i] = ""}) =
    Cardinality({i \in DOMAIN text : Long(text[i])})
(* no line begins or ends with blanks *)
Tidy == (done /\ ~AnyRaw) => \A i \in DOMAIN Lines : Lines[i] # "" =>
  SubSeq(Lines[i], 1, 1) # " " /\
  SubSeq(Lines[i], Len(Lines[i]), Len(Lines[i])) # " "
(* how blanks are written does not matter in ordinary text *)
Same == [i \in DOMAIN text |-> IF text[i].t # "w" /\ ~Hard(text[i]) /\ ~Long(text[i])
                              THEN [t |-> "sp", n |-> 1] ELSE text[i]]
Blankless == (done /\ ~AnyRaw) => Layout(Same, width) = Lines
(* hard breaks: a block never shares a line with the next one *)
HardBreaks == (done /\ ~AnyRaw) =>
  Len(Lines) >= 1 + Cardinality({i \in DOMAIN text : Long(text[i])})
(* (a marker with nothing behind it is no text) *)
Sensible == \A i \in DOMAIN Paragraphs(text) :
  Expected(<<Paragraphs(text)[i]>>) # ""
Emit == (done /\ DoEmit /\ Sensible) => PrintT("@@" \o ToJson([text |-> text]))
=============================================================================
