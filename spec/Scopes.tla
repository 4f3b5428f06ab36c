-------------------------------- MODULE Scopes -------------------------------
(* The state of a process that scoped helpers change: the working directory, *)
(* where standard output and error go, and which temporary directories there *)
(* are.  Scopes nest; exc is the exception under way ("" if none); cwd is     *)
(* "gone" if the working directory does not exist any more.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES cwd, out, err, temps, text, stack, exc, n

svars == <<cwd, out, err, temps, text, stack, exc, n>>

SInit(d) ==
  /\ cwd = d /\ out = "S0" /\ err = "E0" /\ temps = {} /\ stack = <<>>
  /\ exc = "" /\ n = 0
  /\ text = [s \in {"S0", "E0"} |-> ""]

Name(p, k) == p \o ToString(k)
Saved(kind, dir) == [kind |-> kind, cwd |-> cwd, out |-> out, err |-> err, dir |-> dir]
Push(kind, dir) == stack' = Append(stack, Saved(kind, dir)) /\ n' = n + 1

EnterCd(d) ==
  /\ exc = "" /\ cwd # "gone" /\ cwd' = d /\ Push("cd", d)
  /\ UNCHANGED <<out, err, temps, text, exc>>
EnterTmp ==
  LET t == Name("t", n + 1) IN
  /\ exc = "" /\ cwd # "gone" /\ cwd' = t /\ temps' = temps \cup {t} /\ Push("tmp", t)
  /\ UNCHANGED <<out, err, text, exc>>
EnterStd ==
  LET o == Name("o", n + 1)  e == Name("e", n + 1) IN
  /\ exc = "" /\ out' = o /\ err' = e /\ Push("std", "")
  /\ text' = text @@ (o :> "") @@ (e :> "")
  /\ UNCHANGED <<cwd, temps, exc>>
\* entering fails
Fail == exc = "" /\ UNCHANGED svars

\* the end of the innermost scope, with or without exception
Leave ==
  /\ stack # <<>>
  /\ LET s == stack[Len(stack)] IN
     /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
     /\ IF s.kind = "std" THEN out' = s.out /\ err' = s.err /\ UNCHANGED cwd
        ELSE cwd' = s.cwd /\ UNCHANGED <<out, err>>
     /\ temps' = IF s.kind = "tmp" THEN temps \ {s.dir} ELSE temps
  /\ UNCHANGED <<text, exc, n>>

Raise(e) == exc = "" /\ exc' = e /\ UNCHANGED <<cwd, out, err, temps, text, stack, n>>
Catch == exc # "" /\ exc' = "" /\ UNCHANGED <<cwd, out, err, temps, text, stack, n>>

\* what programs do inside scopes
Chdir(d) == exc = "" /\ cwd' = d /\ UNCHANGED <<out, err, temps, text, stack, exc, n>>
Write(which, s) ==
  /\ exc = ""
  /\ text' = [text EXCEPT ![IF which = "out" THEN out ELSE err] = @ \o s]
  /\ UNCHANGED <<cwd, out, err, temps, stack, exc, n>>
SwapOut ==
  LET o == Name("x", n + 1) IN
  /\ exc = "" /\ out' = o /\ n' = n + 1 /\ text' = text @@ (o :> "")
  /\ UNCHANGED <<cwd, err, temps, stack, exc>>
\* the temporary directory of the innermost scope is removed by the program
Remove(t) ==
  /\ exc = "" /\ t \in temps /\ stack # <<>>
  /\ stack[Len(stack)].kind = "tmp" /\ stack[Len(stack)].dir = t
  /\ temps' = temps \ {t}
  /\ UNCHANGED <<cwd, out, err, text, stack, exc, n>>
\* the working directory itself is removed, which no scope has to return to
Vanish(d) ==
  /\ exc = "" /\ cwd = d /\ d \in temps \cup {"d3"} /\ stack # <<>>
  /\ \A i \in DOMAIN stack : stack[i].cwd # d
  /\ cwd' = "gone" /\ temps' = temps \ {d}
  /\ UNCHANGED <<out, err, text, stack, exc, n>>
==============================================================================
