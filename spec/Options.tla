------------------------------- MODULE Options -------------------------------
(* Options of several plugin objects.  plugins[n] is [name, desc, of]: of is *)
(* the object it stands for (itself unless it is an overridden OS).          *)
EXTENDS Config

Defaults(desc) == DefaultLayer(desc)[2]
NewOptions(desc, data, env) ==
  IF data[1] # "d" THEN Err
  ELSE MergeAll(desc, <<DataLayer(desc, data, env), DefaultLayer(desc)>>)
TopNames(desc) == {IF desc[i].group = "" THEN desc[i].key ELSE desc[i].group : i \in DOMAIN desc}
Unknown(desc, data) == {data[2][n][1][2] : n \in DOMAIN data[2]} \ TopNames(desc)
==============================================================================
