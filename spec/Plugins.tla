------------------------------- MODULE Plugins -------------------------------
(* Loading the plugins of one kind from their entry points, in the order in  *)
(* which they are discovered.  An entry point e:                             *)
(*   loads   it can be loaded                                                *)
(*   def     the plugin definition (a value; a class is <<"c", is it of the  *)
(*           right kind>>)                                                   *)
(*   made    the class can be instantiated, and has a name                   *)
(*   oname   the name of the object                                          *)
(*   vok     the plugin's own verification passes                            *)
(*   cls     its class                                                       *)
EXTENDS RulesForm, TLC

Has(d, k, type) == k \in DOMAIN d[2] /\ d[2][k][1] = type
ValidDef(d, kind) ==
  /\ IsDict(d)
  /\ Has(d, "plugin_name", "s") /\ Has(d, "description", "s")
  /\ Has(d, kind, "c") /\ d[2][kind][2] = "right"
ValidObj(e) ==
  /\ e.made /\ e.vok
  /\ e.oname[1] = "s" /\ Name(e.oname[2], {})

Candidate(e, kind, disabled) ==
  /\ e.loads /\ ValidDef(e.def, kind)
  /\ e.def[2]["plugin_name"][2] \notin disabled
  /\ ValidObj(e)

\* the indices of those that are loaded
RECURSIVE Load(_, _, _, _)
Load(entries, n, kind, disabled) ==
  IF n = 0 THEN <<>>
  ELSE LET before == Load(entries, n - 1, kind, disabled)
           e == entries[n]
       IN IF /\ Candidate(e, kind, disabled)
             /\ \A k \in DOMAIN before : entries[before[k]].oname # e.oname
          THEN Append(before, n) ELSE before
Loaded(entries, kind, disabled) == Load(entries, Len(entries), kind, disabled)
==============================================================================
