------------------------------- MODULE DirsMC --------------------------------
(* Every combination of how prefix and directories can be given.             *)
EXTENDS Config

VARIABLES a, set

P == {<<>>, <<"", "abs">>, <<"rel", "..", "r">>, <<"~", "x">>}
B == {<<>>, <<"", "other">>}
Home == <<"home", "u">>
Cwd == <<"w">>

Init == /\ a \in [prefix_cl : P, prefix_env : B, dir_cl : P, dir_env : B]
        /\ set \in [cache : P, sources : P, user : BOOLEAN]
Next == UNCHANGED <<a, set>>

C == CacheDir(a, set, Home, Cwd)
S == SourcesDir(a, set, Home, Cwd)
ExplicitWins ==
  /\ set.cache # <<>> => C = ExpandComps(set.cache, Home, Cwd)
  /\ set.sources # <<>> => S = ExpandComps(set.sources, Home, Cwd)
Independent ==
  /\ C = CacheDir(a, [set EXCEPT !.sources = <<>>], Home, Cwd)
  /\ S = SourcesDir(a, [set EXCEPT !.cache = <<>>], Home, Cwd)
Absolute == \A n \in DOMAIN C : C[n] \notin {"", ".", "..", "~"}
CommandLineFirst ==
  /\ a.prefix_cl # <<>> => C = CacheDir([a EXCEPT !.prefix_env = <<>>], set, Home, Cwd)
  /\ a.dir_cl # <<>> => S = SourcesDir([a EXCEPT !.dir_env = <<>>], set, Home, Cwd)
DirBeatsUser == HasDir(a) => C = CacheDir(a, [set EXCEPT !.user = ~@], Home, Cwd)
=============================================================================
