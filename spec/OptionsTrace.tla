---------------------------- MODULE OptionsTrace -----------------------------
(* Recorded histories of options; all of them are observed after every step. *)
EXTENDS Options, TraceKit

VARIABLES vals

P == Trace[t].plugins
TInit == TKInit /\ vals = [n \in DOMAIN P |-> Defaults(P[n].desc)]

Shows == /\ Len(Ev.all) = Len(P)
         /\ \A n \in DOMAIN P : Same(Ev.all[n], AsValue(P[n].desc, vals'[P[n].of]))
                             /\ Same(Ev.attrs[n], Ev.all[n])

Look == IsEvent("look") /\ UNCHANGED vals /\ Shows

SetOptions == IsEvent("set") /\
  LET p == P[Ev.id]
      new == NewOptions(p.desc, Ev.data, Ev.env)
  IN /\ IF IsOk(new)
        THEN /\ Ev.got = "ok"
             /\ Ev.warned = (Unknown(p.desc, Ev.data) # {})
             /\ Unknown(p.desc, Ev.data) = Range(Ev.named)
             /\ vals' = [vals EXCEPT ![p.of] = new[2]]
        ELSE /\ Ev.got = "config error naming the plugin"
             /\ UNCHANGED vals
     /\ Same(Ev.data, Ev.after)
     /\ Shows

\* a value is changed in place: shows in that object only
Index(d, g, k) == CHOOSE i \in DOMAIN d : d[i].group = g /\ d[i].key = k
Change == IsEvent("change") /\
  /\ vals' = [vals EXCEPT ![P[Ev.id].of] =
                [@ EXCEPT ![Index(P[Ev.id].desc, Ev.group, Ev.key)] = Ev.to]]
  /\ Shows

TNext == Look \/ SetOptions \/ Change
==============================================================================
