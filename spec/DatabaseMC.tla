---------------------------- MODULE DatabaseMC ------------------------------
(* All combinations of cache contents, source behaviours and operations in a *)
(* small database, and the properties of updates and caching stated          *)
(* source by source, independently of how operations fold over the sources.  *)
EXTENDS Database, TLC, Json

CONSTANTS N, Depth, Kinds, EnvKinds, DoEmit

VARIABLES st, hist, last

S == 1..N
Old(s) == [k |-> "ok", data |-> "old" \o ToString(s), args |-> "a" \o ToString(s),
           origin |-> "o2", time |-> 1]
C(k, s) == IF k = "ok" THEN Old(s) ELSE [k |-> k]
E(k, s, n) == [k |-> k, data |-> k \o ToString(n) \o ToString(s)]
Unsav == {"unsavable" \o ToString(n) \o ToString(s) : n \in 0..Depth, s \in S}

Ops == {<<op, strict>> : op \in {"update", "loadcache"}, strict \in BOOLEAN}
       \cup {<<"clear", s>> : s \in S}

Init ==
  \E ck \in [S -> Kinds], ek \in [S -> EnvKinds] :
    /\ st = [mem |-> <<[s \in S |-> Unloaded("a" \o ToString(s), "o1")]>>,
             cache |-> [s \in S |-> C(ck[s], s)],
             env |-> [s \in S |-> E(ek[s], s, 0)]]
    /\ hist = <<[op |-> "init", cache |-> ck, env |-> ek]>>
    /\ last = Out(st, TRUE, {}, <<>>)

Do(o) ==
  LET times == [s \in S |-> Len(hist) + 1]
      out == IF o[1] = "clear" THEN Clear(st, o[2])
             ELSE Db(o[1], st, 1, o[2], times, Unsav)
  IN /\ last' = out
     /\ st' = [out.st EXCEPT !.env =
                [s \in S |-> E(out.st.env[s].k, s, Len(hist))]]
     /\ hist' = Append(hist, [op |-> o[1], arg |-> o[2]])

Next == Len(hist) <= Depth /\ \E o \in Ops : Do(o)

Emit == DoEmit /\ Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(hist))

\* ---- properties -------------------------------------------------------------
Works(s) == st.env[s].k = "ok" /\ st.cache[s].k # "dir"
Tolerant == [][
  hist'[Len(hist')].op = "update" /\ hist'[Len(hist')].arg = FALSE =>
    \A s \in S :
      /\ Works(s) => /\ st'.cache[s].k = "ok"
                     /\ st'.cache[s].data = st.env[s].data
      /\ ~Works(s) => st'.cache[s] = st.cache[s]
      /\ (s \in last'.failed) = ~Works(s)]_<<st, hist, last>>

Strict == [][
  hist'[Len(hist')].op = "update" /\ hist'[Len(hist')].arg = TRUE =>
    LET bad == {s \in S : ~Works(s)} IN
    /\ last'.ok = (bad = {})
    /\ \A s \in S :
         IF \A b \in bad : s < b
         THEN st'.cache[s].k = "ok" /\ st'.cache[s].data = st.env[s].data
         ELSE /\ st'.cache[s] = st.cache[s]
              /\ (\E b \in bad : b < s) => st'.mem[1][s] = st.mem[1][s]
  ]_<<st, hist, last>>

CacheReads == [][
  hist'[Len(hist')].op = "loadcache" =>
    /\ st'.cache = st.cache
    /\ \A s \in S :
         \/ /\ Usable(st.cache[s])
            /\ st'.mem[1][s].data = st.cache[s].data
            /\ st'.mem[1][s].args = st.cache[s].args
            /\ st'.mem[1][s].origin = st.cache[s].origin
            /\ st'.mem[1][s].time = st.cache[s].time
         \/ st'.mem[1][s] = st.mem[1][s]]_<<st, hist, last>>

ClearOne == [][
  hist'[Len(hist')].op = "clear" =>
    \A s \in S : st'.cache[s] = IF s = hist'[Len(hist')].arg THEN NoEntry
                                ELSE st.cache[s]]_<<st, hist, last>>

\* memory and cache never hold anything that does not verify
OnlyVerified ==
  \A s \in S : st.mem[1][s].data = "none"
               \/ SubSeq(st.mem[1][s].data, 1, 2) \in {"ol", "ok", "un"}
=============================================================================
