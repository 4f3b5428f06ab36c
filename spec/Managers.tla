------------------------------- MODULE Managers ------------------------------
(* The package managers that the installers of xylem drive, and what their   *)
(* installers say and ask for.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Managers == {"apt", "homebrew", "macports", "pip", "fake"}
\* installers that can tell what is installed
Telling == {"pip", "fake"}

VARIABLES there, has, dir   \* managers that are there; packages; of fake: where
mvars == <<there, has, dir>>

MInit(t, h, d) == there = t /\ has = h /\ dir = d

Range(s) == {s[k] : k \in DOMAIN s}
Program(k) ==
  CASE k = "apt" -> "apt-get" [] k = "homebrew" -> "brew"
    [] k = "macports" -> "port" [] k = "pip" -> "pip" [] k = "fake" -> "touch"
Command(k, p) ==
  CASE k = "pip" -> <<"pip", "install", "-U", p>>
    [] k = "fake" -> <<"touch", dir \o "/" \o p>>
    [] OTHER -> <<Program(k), "install", p>>

\* what is asked for to install packages: one command each, in their order
Composed(k, pkgs) == [n \in DOMAIN pkgs |-> Command(k, pkgs[n])]
\* what is missing, in the order asked
Missing(k, pkgs) ==
  SelectSeq(pkgs, LAMBDA p : k \notin there \/ p \notin has[k])

\* what an installer that does not know may say: packages that may be
\* there can be in it or not
Possible(k, pkgs) ==
  {SelectSeq(pkgs, LAMBDA p : k \notin there \/ p \notin has[k] \/ p \in maybe) :
     maybe \in SUBSET Range(pkgs)}

Run(k, p) ==
  /\ has' = IF k \in there THEN [has EXCEPT ![k] = @ \cup {p}] ELSE has
  /\ UNCHANGED <<there, dir>>
Put(k, p) == k \in there /\ has' = [has EXCEPT ![k] = @ \cup {p}] /\ UNCHANGED <<there, dir>>
Drop(k, p) == has' = [has EXCEPT ![k] = @ \ {p}] /\ UNCHANGED <<there, dir>>
\* with the directory of fake, its packages go
Lose(k) ==
  /\ there' = there \ {k}
  /\ has' = IF k = "fake" THEN [has EXCEPT ![k] = {}] ELSE has
  /\ UNCHANGED dir
Gain(k) == there' = there \cup {k} /\ UNCHANGED <<has, dir>>
\* installing the manager: only the fake one can be
InstallManager(k, result) ==
  IF k = "fake" THEN result = "ok" /\ Gain(k)
  ELSE result = "unsupported" /\ UNCHANGED mvars
==============================================================================
