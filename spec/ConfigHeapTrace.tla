--------------------------- MODULE ConfigHeapTrace ---------------------------
(* Recorded histories of configurations: after every step all of them are    *)
(* observed, as entries and as attributes, and so are the declared defaults. *)
EXTENDS ConfigHeap, TraceKit

VARIABLES objs, n

D == Trace[t].desc
Init0 == TKInit /\ objs = <<>> /\ n = 0

View(o) == AsValue(D, o.vals)
Dflt == [i \in DOMAIN D |-> DefaultOf(D[i])]

\* what is observed is exactly the new objects
Shows(new) ==
  /\ Len(Ev.all) = Len(new)
  /\ \A i \in DOMAIN new : Same(View(new[i]), Ev.all[i]) /\ Same(Ev.attrs[i], Ev.all[i])
  /\ \A i \in DOMAIN D : Same(Ev.defaults[i], Dflt[i])

Create(o) == objs' = Append(objs, o) /\ n' = n + 1 /\ Shows(objs')

FromDef == IsEvent("defaults") /\ Create(FromDefaults(D))
FromData == IsEvent("data") /\ Same(Ev.data, Ev.after) /\
  LET own == DataLayer(D, Ev.data, Ev.env)[2]
  IN Create(Obj(IF Ev.use THEN MergeVals(D, <<own, Dflt>>) ELSE own, n + 1))
Merging == IsEvent("merge") /\
  Create(Obj(MergeVals(D, [k \in DOMAIN Ev.ids |-> objs[Ev.ids[k]].vals]), 0))
WithDef == IsEvent("withdef") /\
  Create(Obj(MergeVals(D, <<objs[Ev.id].vals, Dflt>>), 0))
\* a copy
ToDict == IsEvent("todict") /\ Create(Obj(objs[Ev.id].vals, 0))
\* another view, which may share with the original
Coerce == IsEvent("coerce") /\
  /\ objs' = View2(objs, Ev.id, 2 * n + 1000, Ev.copy)
  /\ n' = n + 1 /\ Shows(objs')

Index(g, k) == CHOOSE i \in DOMAIN D : D[i].group = g /\ D[i].key = k
ValOf(obs, i) == IF D[i].group = "" THEN Get(obs, D[i].key)
                 ELSE Get(Get(obs, D[i].group), D[i].key)
\* an item of one configuration is changed; it may show in those sharing it
Set == IsEvent("set") /\ n' = n /\
  LET i == Index(Ev.group, Ev.key) IN
  /\ objs' = [k \in DOMAIN objs |->
        IF k = Ev.id THEN [objs[k] EXCEPT !.vals[i] = Ev.to]
        ELSE IF MayShow(objs, Ev.id, k, Ev.deep)
             THEN [objs[k] EXCEPT !.vals[i] = ValOf(Ev.all[k], i)]
             ELSE objs[k]]
  /\ Shows(objs')

TInit == Init0
TNext == FromDef \/ FromData \/ Merging \/ WithDef \/ ToDict \/ Coerce \/ Set
=============================================================================
