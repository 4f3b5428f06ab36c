------------------------------ MODULE ContextMC ------------------------------
(* A context that is set up any number of times while the configuration and  *)
(* the OS change in between.                                                 *)
EXTENDS Context, Json

CONSTANT DoEmit

VARIABLES cfg, loaded, tuple, core, additional, options, steps

Desc == <<[group |-> "", key |-> "o", type |-> <<"str">>,
           default |-> <<"s", "d">>, cl |-> FALSE]>>
Env == [paths |-> [none |-> <<"none">>], home |-> <<"h">>, cwd |-> <<"w">>]
All == {"a", "b", "c"}
Plugin(i) == [name |-> i, desc |-> Desc,
              additional |-> CASE i = "a" -> <<>>
                               [] i = "b" -> <<<<"u", "1">>, <<"u", "2">>>>
                               [] i = "c" -> <<<<"u", "1">>>>]
OsCore(t) == IF t[2] = "1" THEN <<"a", "b">> ELSE <<"x", "c">>
Tuples == {<<"u", "1">>, <<"u", "2">>}
Orders == {<<"a", "b", "c">>, <<"c", "a">>, <<"b">>, <<>>}
Cfgs == {[core |-> c, additional |-> add, options |-> o] :
   c \in {<<"unset">>, <<"set", <<>>>>, <<"set", <<"c", "a">>>>, <<"set", <<"x", "b">>>>},
   add \in BOOLEAN,
   o \in {<<>>, [i \in {"a", "x"} |-> <<"d", <<<<<<"s", "o">>, <<"s", "v">>>>>>>>]}}

Plugins == [n \in DOMAIN loaded |-> Plugin(loaded[n])]
Init ==
  /\ cfg \in Cfgs /\ loaded \in Orders /\ tuple \in Tuples
  /\ core = <<>> /\ additional = {} /\ steps = 0
  /\ options = [i \in Range(loaded) |-> DefaultLayer(Desc)[2]]
SetUp ==
  /\ core' = CoreNames(cfg, Plugins, OsCore(tuple))
  /\ additional' = Additional(cfg, Plugins, OsCore(tuple), tuple)
  /\ options' = [i \in Range(loaded) |-> OptionsOf(cfg, Plugin(i), Env)[2]]
  /\ steps' = steps + 1
  /\ UNCHANGED <<cfg, loaded, tuple>>
Change == \E c \in Cfgs : cfg' = c /\ UNCHANGED <<loaded, tuple, core, additional, options, steps>>
ChangeOs == \E t \in Tuples : tuple' = t /\ UNCHANGED <<cfg, loaded, core, additional, options, steps>>
Next == steps < 2 /\ (SetUp \/ Change \/ ChangeOs)

OnlyLoaded == Range(core) \subseteq Range(loaded) /\ additional \subseteq Range(loaded)
Disjoint == Range(core) \cap additional = {}
\* what a set-up results in depends on nothing before it
Memoryless == [][steps' # steps =>
   /\ (cfg.core[1] = "set" => \A n \in DOMAIN core' : core'[n] \in Range(cfg.core[2]))
   /\ (cfg.core = <<"set", <<>>>> => core' = <<>>)
   /\ (~cfg.additional => additional' = {})
   /\ \A i \in Range(loaded) : options'[i][1] =
        IF i \in DOMAIN cfg.options THEN <<"s", "v">> ELSE <<"s", "d">>]_<<cfg, steps>>
Emit == (DoEmit /\ steps = 0) => PrintT("@@" \o ToJson(
  [core |-> cfg.core, additional |-> cfg.additional, set |-> DOMAIN cfg.options # {},
   loaded |-> loaded, version |-> tuple[2]]))
==============================================================================
