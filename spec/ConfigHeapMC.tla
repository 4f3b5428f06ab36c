---------------------------- MODULE ConfigHeapMC -----------------------------
(* A few configurations created from defaults, data and each other, with     *)
(* items changed in between; cells model what an implementation may share.   *)
EXTENDS ConfigHeap

VARIABLES objs, defaults, n

Desc == <<[group |-> "", key |-> "x", type |-> <<"list", <<"str">>>>,
           default |-> <<"l", <<>>>>, cl |-> FALSE]>>
Env == [paths |-> [none |-> <<"none">>], home |-> <<"h">>, cwd |-> <<"w">>]
V == {Null, <<"l", <<>>>>, <<"l", <<<<"s", "a">>>>>>}

Init == objs = <<>> /\ defaults = DefaultLayer(Desc)[2] /\ n = 0
Add(o) == objs' = Append(objs, o) /\ n' = n /\ UNCHANGED defaults
Next ==
  \/ /\ Len(objs) < 3
     /\ \/ Add(FromDefaults(Desc))
        \/ \E v \in V : Add(Obj(<<v>>, Len(objs) + 1))
        \/ \E i \in DOMAIN objs, copy \in BOOLEAN :
             /\ objs' = View2(objs, i, 10 * (Len(objs) + 1), copy)
             /\ n' = n /\ UNCHANGED defaults
        \/ \E i, j \in DOMAIN objs : Add(Obj(MergeVals(Desc, <<objs[i].vals, objs[j].vals>>), 0))
  \/ /\ n < 2
     /\ \E i \in DOMAIN objs, v \in {<<"l", <<<<"s", "new">>>>>>, Null} :
          objs' = [objs EXCEPT ![i].vals = <<v>>]
     /\ n' = n + 1
     /\ UNCHANGED defaults

DefaultsConstant == defaults = DefaultLayer(Desc)[2]
FreshDefaults == FromDefaults(Desc).vals = defaults
\* sharing is symmetric, and what may show without lists may show with them
Sharing == \A i, j \in DOMAIN objs : \A deep \in BOOLEAN :
  /\ MayShow(objs, i, j, deep) = MayShow(objs, j, i, deep)
  /\ MayShow(objs, i, j, FALSE) => MayShow(objs, i, j, TRUE)
\* a configuration made independently never shows changes of others
Independent == \A i, j \in DOMAIN objs :
  i # j /\ objs[i].cls = 0 => ~MayShow(objs, i, j, TRUE)
=============================================================================
