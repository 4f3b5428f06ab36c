------------------------------- MODULE Context -------------------------------
(* Which installers are used, and with which options.                        *)
(*                                                                           *)
(* plugins: sequence of [name, additional, desc] in order of loading         *)
(* (additional: set of <<os, version>> for which the installer declares      *)
(* itself additional; desc: description of its options).                     *)
(* cfg: [core: <<"unset">> or <<"set", sequence>>, additional: BOOLEAN,      *)
(* options: name -> data].                                                   *)
EXTENDS Config

Names(plugins) == {plugins[n].name : n \in DOMAIN plugins}

CoreNames(cfg, plugins, oscore) ==
  SelectSeq(IF cfg.core[1] = "set" THEN cfg.core[2] ELSE oscore,
            LAMBDA i : i \in Names(plugins))

Additional(cfg, plugins, oscore, tuple) ==
  IF ~cfg.additional THEN {}
  ELSE {plugins[n].name : n \in {m \in DOMAIN plugins :
          /\ tuple \in Range(plugins[m].additional)
          /\ plugins[m].name \notin Range(CoreNames(cfg, plugins, oscore))}}

\* options: the given data over the defaults
Given2(cfg, name) == IF name \in DOMAIN cfg.options THEN cfg.options[name] ELSE Empty
OptionsOf(cfg, p, env) ==
  LET d == Given2(cfg, p.name)
  IN MergeAll(p.desc, <<DataLayer(p.desc, IF d = Null THEN Empty ELSE d, env),
                        DefaultLayer(p.desc)>>)
==============================================================================
