------------------------------ MODULE CallsMC --------------------------------
(* Two sources directories, two cache directories, three configurations.     *)
EXTENDS Calls, TLC, Json

CONSTANTS Depth, DoEmit

VARIABLES st, hist, last
vars == <<st, hist, last>>

Keys == <<"k", "m">>
Ru(f, v, os) ==
  <<[key |-> "k", os |-> os, inst |-> "fake", pkg |-> f \o v \o os \o "kf"],
    [key |-> "k", os |-> os, inst |-> "pip", pkg |-> f \o v \o os \o "kp"]>>
  \o (IF v = "1" THEN <<[key |-> "m", os |-> os, inst |-> "pip",
                         pkg |-> f \o v \o os \o "mp"]>> ELSE <<>>)
Rules(f, v) == Ru(f, v, "ubuntu") \o Ru(f, v, "debian")
C(s, d, o, i, fr) == [src |-> s, cdir |-> d, os |-> o, core |-> <<"fake", "pip">>,
                      idir |-> i, from |-> fr]
W == [dirs |-> [a |-> <<"f", "g">>, b |-> <<"g">>], keys |-> Keys,
      configs |-> <<C("a", "c1", "ubuntu", "i1", <<>>),
                    C("b", "c2", "debian", "i2", <<[inst |-> "pip", keys |-> <<"k">>]>>),
                    C("b", "c1", "ubuntu", "i1",
                      <<[inst |-> "fake", keys |-> <<"m">>]>>)>>]
Init == /\ st = [rules |-> [f |-> Rules("f", "1"), g |-> Rules("g", "1")],
                 cache |-> [c1 |-> [f |-> <<>>, g |-> <<>>],
                            c2 |-> [f |-> <<>>, g |-> <<>>]],
                 glob |-> 1, sctxs |-> <<>>, ictxs |-> <<>>, dbs |-> <<>>,
                 of |-> <<>>, have |-> {}]
        /\ hist = <<>> /\ last = [call |-> ""]

CfgArgs == {NoArg, [kind |-> "dict", n |-> 2], [kind |-> "parsed", n |-> 3],
            [kind |-> "bad", n |-> 0]}
CtxArgs(q) == {NoArg, [kind |-> "bad", n |-> 0]} \cup
              {[kind |-> "given", n |-> n] : n \in DOMAIN q}
Args ==
  {a \in [call : {"resolve", "install", "lookup", "update"}, cfg : CfgArgs,
          sctx : CtxArgs(st.sctxs), ictx : CtxArgs(st.ictxs),
          db : 0..Len(st.dbs), keys : {<<"k">>, <<"m">>}, all : BOOLEAN,
          simulate : BOOLEAN, again : {FALSE}, go_on : {FALSE}] :
     /\ a.call \in {"lookup", "update"} =>
          /\ a.db = 0 /\ ~a.all /\ a.sctx.kind # "bad" /\ a.ictx.kind # "bad"
     /\ a.call = "update" => a.ictx = NoArg /\ a.keys = <<"k">>
     /\ a.call \in {"resolve", "lookup"} => ~a.simulate}

Do(s, e) == st' = s /\ hist' = Append(hist, e)
Call == \E a \in Args : /\ last' = a
                        /\ Do(After(W, st, a), [op |-> "call", a |-> a])
Other == last' = [call |-> ""] /\
  \/ \E n \in 2..3 : st.glob # n /\ Do(SetGlobal(st, n), [op |-> "global", n |-> n])
  \/ \E f \in {"f", "g"} : st.rules[f] = Rules(f, "1") /\
       Do(Edit(st, f, Rules(f, "2")), [op |-> "edit", f |-> f])
  \/ \E g \in {NoArg, [kind |-> "parsed", n |-> 2]} : Len(st.sctxs) < 1 /\
       Do(NewSCtx(W, st, g), [op |-> "sctx", cfg |-> g])
  \/ \E g \in {NoArg, [kind |-> "parsed", n |-> 2]} : Len(st.ictxs) < 1 /\
       Do(NewICtx(W, st, g), [op |-> "ictx", cfg |-> g])
  \/ \E n \in DOMAIN st.sctxs, how \in {"source", "cache"} : Len(st.dbs) < 1 /\
       Do(NewDb(W, st, n, how), [op |-> "db", n |-> n, how |-> how])
  \/ \E n \in DOMAIN st.dbs, how \in {"source", "cache", "update"} :
       ReloadOk(W, st, n, how) /\
       Do(Reload(W, st, n, how), [op |-> "reload", n |-> n, how |-> how])
Next == Len(hist) < Depth /\ (Call \/ Other)
View == <<st, Len(hist)>>

\* what is given is all that is used
Full(a) == a.sctx.kind = "given" /\ a.ictx.kind = "given"
GlobalUnused == \A g \in 1..3 : \A a \in Args :
  a.cfg.kind # "none" \/ (a.call = "lookup" /\ Full(a)) \/
  (a.call = "update" /\ a.sctx.kind = "given") =>
    LET s == SetGlobal(st, g)
    IN Answers(W, s, a) = Answers(W, st, a) /\ Runs(W, s, a) = Runs(W, st, a)
\* answers are of what was cached when the cache was last updated
Offline == \A f \in {"f", "g"}, v \in {"1", "2"} : \A a \in Args :
  Answers(W, Edit(st, f, Rules(f, v)), a) = Answers(W, st, a)
\* having updated, what is found is what is in the files
Fresh == \A c \in CfgArgs : c.kind # "bad" =>
  LET u == [call |-> "update", cfg |-> c, sctx |-> NoArg, ictx |-> NoArg, db |-> 0,
            keys |-> <<"k">>, all |-> FALSE, simulate |-> FALSE,
            again |-> FALSE, go_on |-> FALSE]
      s == After(W, st, u)
  IN Cached(W, s, SCtx(W, s, u)) = Current(W, st, SCtx(W, st, u))
Op == hist'[Len(hist')].op
OnlyUpdate == [][st'.cache # st.cache =>
  Op = "reload" \/ (last'.call = "update" /\ ~last'.simulate)]_vars
OnlyInstall == [][st'.have # st.have => last'.call = "install" /\ ~last'.simulate]_vars
Kept == [][\A n \in DOMAIN st.dbs : st'.dbs[n] = st.dbs[n] \/ Op = "reload"]_vars
GlobKept == [][last'.call # "" => st'.glob = st.glob]_vars

Emit == (DoEmit /\ hist # <<>>) => PrintT("@@" \o ToJson(hist))
==============================================================================
