------------------------------ MODULE ManagersMC -----------------------------
(* All short histories of one installer that can tell what is installed.     *)
EXTENDS Managers, Json

CONSTANTS MaxSteps, DoEmit
VARIABLES kind, hist

Pkgs == {"p", "q"}
Lists == UNION {[1..n -> Pkgs] : n \in 0..2}
Init ==
  /\ kind \in Telling /\ hist = <<>>
  /\ MInit(Managers, [k \in Managers |-> {}], "D")
Do(a) == Len(hist) < MaxSteps /\ hist' = Append(hist, a) /\ UNCHANGED kind
Next ==
  \/ \E p \in Pkgs : \/ Run(kind, p) /\ Do(<<"run", p>>)
                     \/ Put(kind, p) /\ Do(<<"put", p>>)
                     \/ Drop(kind, p) /\ Do(<<"drop", p>>)
  \/ Lose(kind) /\ Do(<<"lose">>)
  \/ InstallManager(kind, "ok") /\ Do(<<"manager">>)
  \/ Gain(kind) /\ kind # "fake" /\ Do(<<"gain">>)

\* running what was composed for what is missing leaves nothing missing
RECURSIVE After(_, _)
After(cs, h) == IF cs = <<>> THEN h
  ELSE After(Tail(cs), [h EXCEPT ![kind] = @ \cup
         {p \in Pkgs : kind \in there /\ Head(cs) = Command(kind, p)}])
Done == \A l \in Lists :
  LET h == After(Composed(kind, Missing(kind, l)), has)
  IN kind \in there => Missing(kind, l) = <<>> \/ \A p \in Range(l) : p \in h[kind]
OnePerPackage == \A k \in Managers, l \in Lists :
  /\ Len(Composed(k, l)) = Len(l)
  /\ \A i, j \in DOMAIN l : Composed(k, l)[i] = Composed(k, l)[j] <=> l[i] = l[j]
Exact == \A l \in Lists :
  LET m == Missing(kind, l)
  IN /\ \A p \in Range(l) : p \in Range(m) <=> ~(kind \in there /\ p \in has[kind])
     /\ Range(m) \subseteq Range(l)
Emit == (DoEmit /\ Len(hist) = MaxSteps) => PrintT("@@" \o ToJson([kind |-> kind, hist |-> hist]))
==============================================================================
