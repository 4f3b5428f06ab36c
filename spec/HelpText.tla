------------------------------ MODULE HelpText ------------------------------
(* How help texts are laid out: paragraphs, hard line breaks, paragraphs     *)
(* that are shown as they are, and what is told about an item of the         *)
(* configuration.                                                            *)
(*                                                                           *)
(* A text is a sequence of tokens                                            *)
(*   [t |-> "w", f |-> <<fragments>>, raw |-> BOOLEAN, rest |-> STRING]      *)
(*        a word; it may be divided between its fragments (after a hyphen);  *)
(*        raw: it begins with the marker R| and goes on with rest            *)
(*   [t |-> "sp", n |-> blanks]      [t |-> "nl", n |-> line breaks in a row] *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))

RECURSIVE Blanks(_)
Blanks(n) == IF n = 0 THEN "" ELSE " " \o Blanks(n - 1)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* divide toks at the tokens that satisfy D *)
RECURSIVE Split(_, _, _)
Split(toks, D(_), cur) ==
  IF toks = <<>> THEN <<cur>>
  ELSE IF D(Head(toks)) THEN <<cur>> \o Split(Tail(toks), D, <<>>)
  ELSE Split(Tail(toks), D, Append(cur, Head(toks)))

Long(tok) == tok.t = "nl" /\ tok.n >= 3
Hard(tok) == tok.t = "nl" /\ tok.n = 2
Break(tok) == tok.t = "nl"

Paragraphs(toks) == Split(toks, Long, <<>>)
Blocks(par) == Split(par, Hard, <<>>)

IsWord(tok) == tok.t = "w"
(* the position of the first word; 0: none *)
FirstWord(par) ==
  IF \E i \in DOMAIN par : IsWord(par[i])
  THEN CHOOSE i \in DOMAIN par :
         IsWord(par[i]) /\ \A j \in DOMAIN par : IsWord(par[j]) => i <= j
  ELSE 0
IsRaw(par) == LET i == FirstWord(par) IN i # 0 /\ par[i].raw

-----------------------------------------------------------------------------
(* Ordinary paragraphs *)

RECURSIVE Pieces(_)
Pieces(block) ==
  IF block = <<>> THEN <<>>
  ELSE LET w == Head(block)
       IN (IF IsWord(w)
           THEN [i \in DOMAIN w.f |-> [s |-> w.f[i], glued |-> i > 1]]
           ELSE <<>>) \o Pieces(Tail(block))

(* as many pieces on a line as there is room for *)
RECURSIVE Fill(_, _, _)
Fill(ps, width, line) ==
  IF ps = <<>> THEN IF line = "" THEN <<>> ELSE <<line>>
  ELSE LET p == Head(ps)
           next == IF line = "" THEN p.s
                   ELSE IF p.glued THEN line \o p.s
                   ELSE line \o " " \o p.s
       IN IF Len(next) <= width \/ line = ""
          THEN Fill(Tail(ps), width, next)
          ELSE <<line>> \o Fill(Tail(ps), width, p.s)

Ordinary(par, width) ==
  LET bs == Blocks(par)
  IN Flat([i \in DOMAIN bs |-> Fill(Pieces(bs[i]), width, "")])

-----------------------------------------------------------------------------
(* Paragraphs that are shown as they are *)

TokLen(tok) == IF IsWord(tok) THEN Len(Cat(tok.f)) ELSE tok.n
RECURSIVE Length(_)
Length(toks) == IF toks = <<>> THEN 0 ELSE TokLen(Head(toks)) + Length(Tail(toks))

TokText(tok) == IF IsWord(tok) THEN Cat(tok.f) ELSE Blanks(tok.n)
RECURSIVE TextOf(_)
TextOf(toks) == IF toks = <<>> THEN ""
                ELSE TokText(Head(toks)) \o TextOf(Tail(toks))

(* the marker counts as two blanks *)
Unmarked(par) ==
  LET i == FirstWord(par)
      w == par[i]
      lead == Length(SubSeq(par, 1, i - 1)) + 2
      rest == SubSeq(par, i + 1, Len(par))
  IN IF w.rest # ""
     THEN << [t |-> "sp", n |-> lead],
             [t |-> "w", f |-> <<w.rest>>, raw |-> FALSE, rest |-> ""] >> \o rest
     ELSE IF rest # <<>> /\ Head(rest).t = "sp"
     THEN << [t |-> "sp", n |-> lead + Head(rest).n] >> \o Tail(rest)
     ELSE << [t |-> "sp", n |-> lead] >> \o rest

(* blanks at the end of a line are not seen *)
Trimmed(line) == IF line # <<>> /\ line[Len(line)].t = "sp"
                 THEN SubSeq(line, 1, Len(line) - 1) ELSE line

(* several line breaks in a row are empty lines *)
RECURSIVE RawLines(_)
RawLines(toks) ==
  LET parts == Split(toks, Break, <<>>)
      breaks == SelectSeq(toks, Break)
  IN Flat([i \in DOMAIN parts |->
             <<Trimmed(parts[i])>> \o
             (IF i \in DOMAIN breaks /\ breaks[i].n = 2 THEN << <<>> >>
              ELSE <<>>)])

Lead(line) == IF line # <<>> /\ Head(line).t = "sp" THEN Head(line).n ELSE 0
HasWord(line) == \E i \in DOMAIN line : IsWord(line[i])
Least(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y

RawParagraph(par) ==
  LET ls == RawLines(Unmarked(par))
      off == Least({Lead(ls[i]) : i \in {j \in DOMAIN ls : HasWord(ls[j])}})
      Shift(line) ==
        IF ~HasWord(line) THEN ""
        ELSE IF Lead(line) = 0 THEN TextOf(line)
        ELSE Blanks(Lead(line) - off) \o TextOf(Tail(line))
  IN [i \in DOMAIN ls |-> Shift(ls[i])]

-----------------------------------------------------------------------------
Paragraph(par, width) ==
  IF IsRaw(par) THEN RawParagraph(par) ELSE Ordinary(par, width)

RECURSIVE Stack(_, _)
Stack(ps, width) ==
  IF Len(ps) = 1 THEN Paragraph(ps[1], width)
  ELSE Paragraph(ps[1], width) \o <<"">> \o Stack(Tail(ps), width)

Layout(toks, width) == Stack(Paragraphs(toks), width)

-----------------------------------------------------------------------------
(* What is told about an item of the configuration:                          *)
(*   [help |-> tokens, name, arg, dashed |-> the argument that belongs to    *)
(*    the name, group |-> BOOLEAN, type, default |-> <<>> or its words]      *)
Plain(s) == [t |-> "w", f |-> <<s>>, raw |-> FALSE, rest |-> ""]
Gap == [t |-> "sp", n |-> 1]

RECURSIVE Spaced(_)
Spaced(ss) == IF ss = <<>> THEN <<>>
              ELSE IF Len(ss) = 1 THEN <<Plain(ss[1])>>
              ELSE <<Plain(ss[1]), Gap>> \o Spaced(Tail(ss))

InfoWords(item) ==
  LET named == item.group \/ item.arg # item.dashed
      tail == IF item.default = <<>> THEN ")" ELSE ","
      dflt == item.default
  IN (IF named THEN <<"(config:", "`" \o item.name \o "`,", "type:">>
      ELSE <<"(type:">>)
     \o <<item.type \o tail>>
     \o (IF dflt = <<>> THEN <<>>
         ELSE <<"default:">> \o
              [i \in DOMAIN dflt |-> IF i = Len(dflt) THEN dflt[i] \o ")"
                                     ELSE dflt[i]])

ItemHelp(item) ==
  (IF item.help = <<>> THEN <<>>
   ELSE item.help \o <<[t |-> "nl", n |-> 2]>>) \o Spaced(InfoWords(item))
=============================================================================
