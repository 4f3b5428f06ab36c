---------------------------- MODULE AtomicCache -----------------------------
(* What users of the rules cache rely on: an entry is a register that every  *)
(* update overwrites in one indivisible step; whatever happens to an update, *)
(* that step has been taken completely or not at all.                        *)
EXTENDS Naturals, FiniteSets, Sequences

VARIABLES cur,       \* source -> version a reader finds
          running,   \* the updates going on: updater -> its version
          done       \* the <<updater, source>> whose step has been taken

Sources == DOMAIN cur

Begin(u, v) ==
  /\ u \notin DOMAIN running
  /\ running' = [x \in DOMAIN running \cup {u} |->
                  IF x = u THEN v ELSE running[x]]
  /\ UNCHANGED <<cur, done>>

\* during a step of update u the entries of some sources are replaced
Step(u) ==
  /\ u \in DOMAIN running
  /\ \E new \in SUBSET {s \in Sources : <<u, s>> \notin done} :
       /\ cur' = [s \in Sources |-> IF s \in new THEN running[u] ELSE cur[s]]
       /\ done' = done \cup {<<u, s>> : s \in new}
  /\ UNCHANGED running

\* an update may say it succeeded only if everything was replaced
End(u, how) ==
  /\ u \in DOMAIN running
  /\ how = "ok" => \A s \in Sources : <<u, s>> \in done
  /\ running' = [x \in DOMAIN running \ {u} |-> running[x]]
  /\ UNCHANGED <<cur, done>>
=============================================================================
