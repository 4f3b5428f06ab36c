----------------------------- MODULE ConfigHeap ------------------------------
(* Several configurations that exist at the same time.  A configuration is   *)
(* [vals: value of each item of the description, cls, own]: it may share     *)
(* anything with those of the same class cls, and dictionaries only with     *)
(* those which also have the same own; 0 is a class of its own.              *)
EXTENDS Config

Obj2(vals, cls, own) == [vals |-> vals, cls |-> cls, own |-> own]
Obj(vals, cls) == Obj2(vals, cls, cls)

\* cls = 0: shares nothing with anything
FromDefaults(desc) == Obj(DefaultLayer(desc)[2], 0)

MergeVals(desc, qs) == MergeAll(desc, [n \in DOMAIN qs |-> Ok(qs[n])])[2]

\* May a change of object a show in object b?  deep: of something below a list
MayShow(objs, a, b, deep) ==
  a = b \/ (/\ objs[a].cls # 0
            /\ objs[a].cls = objs[b].cls
            /\ deep \/ objs[a].own = objs[b].own)

\* another view of object a: a copy has dictionaries of its own
View2(objs, a, n, copy) ==
  LET c == IF objs[a].cls = 0 THEN n ELSE objs[a].cls
      w == IF objs[a].own = 0 THEN n ELSE objs[a].own
      marked == [objs EXCEPT ![a].cls = c, ![a].own = w]
  IN Append(marked, Obj2(objs[a].vals, c, IF copy THEN n + 1 ELSE w))
=============================================================================
