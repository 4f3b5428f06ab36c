------------------------------ MODULE CommandsMC -----------------------------
EXTENDS Commands, TLC, Json

CONSTANTS MaxEntries, DoEmit

VARIABLES eps, ln, out
vars == <<eps, ln, out>>
Kinds == {"valid", "notdict", "broken", "incomplete", "failing"}
NamesMC == {"a", "_b", "update"}
NoLine == [cmd |-> "", help |-> FALSE, bad |-> FALSE, x |-> <<>>, keys |-> <<>>,
           opt |-> <<>>, alone |-> FALSE]
ResultsMC == IF DoEmit THEN {"none", "error"} ELSE Results
Some == {<<"valid", r>> : r \in ResultsMC} \cup {<<k, "none">> : k \in Kinds}
None == [exit |-> 99, ran |-> 0, x |-> <<>>, keys |-> <<>>, opt |-> "", message |-> FALSE]

Init == eps = <<>> /\ ln = NoLine /\ out = None
Install == /\ out = None /\ Len(eps) < MaxEntries
           /\ \E n \in NamesMC, s \in Some : \E t \in {n, "a"} :
                eps' = Append(eps, [name |-> n, title |-> t, kind |-> s[1], result |-> s[2],
                                    id |-> Len(eps) + 1])
           /\ UNCHANGED <<ln, out>>
Call == /\ out = None /\ eps # <<>>
        /\ \E c \in NamesMC \cup {"", "nosuch"}, h \in BOOLEAN, b \in BOOLEAN,
              o \in {<<>>, <<"o">>} :
             ln' = [NoLine EXCEPT !.cmd = c, !.help = h, !.bad = b, !.opt = o,
                                  !.x = o, !.keys = o]
        /\ out' = Outcome(eps, ln')
        /\ UNCHANGED eps
Next == Install \/ Call

\* no entry point of no use, and none behind another, ever runs
OnlyUsable == out.ran # 0 =>
  /\ eps[out.ran].kind = "valid" /\ eps[out.ran].title = ln.cmd
  /\ \A k \in 1..(out.ran - 1) : eps[k].name # eps[out.ran].name
\* what is offered can be run
OfferedRuns == \A n \in Offered(eps) :
  Outcome(eps, [NoLine EXCEPT !.cmd = n]).ran # 0
\* other entry points, whether of use or not, do not change what a command does
Others == \A n \in Usable(eps) :
  LET kept == SelectSeq(eps, LAMBDA e : e = Called(eps, n)) IN
  Outcome(eps, [NoLine EXCEPT !.cmd = n]) = Outcome(kept, [NoLine EXCEPT !.cmd = n])
\* each entry point that counts is either called by its title or reported
Accounted == \A k \in DOMAIN eps : Counts(eps, k) =>
  (Callable(eps, k) /\ Called(eps, eps[k].title) = eps[k]) # (eps[k] \in Useless(eps))
Exits == out # None => (out.exit = 2 => out.ran = 0) /\ (out.ran = 0 => out.exit \in {0, 2})
Emit == (DoEmit /\ out # None) => PrintT("@@" \o ToJson([eps |-> eps, ln |-> ln]))
==============================================================================
