---------------------------- MODULE HelpTextJudge ---------------------------
(* Recorded help texts.                                                      *)
EXTENDS HelpText, JudgeKit

(* argparse shows one empty line where there are several, none at the ends *)
RECURSIVE Normal(_)
Normal(ls) ==
  IF ls = <<>> THEN <<>>
  ELSE IF ls[Len(ls)] = "" THEN Normal(SubSeq(ls, 1, Len(ls) - 1))
  ELSE IF Len(ls) > 1 /\ ls[Len(ls) - 1] = "" /\
          (Len(ls) = 2 \/ ls[Len(ls) - 2] = "")
  THEN Normal(SubSeq(ls, 1, Len(ls) - 2) \o <<ls[Len(ls)]>>)
  ELSE Append(IF Len(ls) > 1 /\ ls[Len(ls) - 1] = ""
              THEN Append(Normal(SubSeq(ls, 1, Len(ls) - 2)), "")
              ELSE Normal(SubSeq(ls, 1, Len(ls) - 1)), ls[Len(ls)])

Verdict(r) ==
  CASE r.op = "text" ->
         IF Normal(r.got) = Normal(Layout(r.text, r.width)) THEN "ok"
         ELSE "the text is laid out differently"
    [] r.op = "item" ->
         IF Normal(r.got) = Normal(Layout(ItemHelp(r.item), r.width)) THEN "ok"
         ELSE "the help of an item of the configuration"
    [] r.op = "args" ->
         IF r.got = r.args THEN "ok"
         ELSE "the arguments that are described"
    [] OTHER -> "unknown record"
TNext == TStep(Verdict)
=============================================================================
