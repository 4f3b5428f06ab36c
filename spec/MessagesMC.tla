------------------------------ MODULE MessagesMC -----------------------------
(* All short histories of switches, arguments and messages.                  *)
EXTENDS Messages, Json

CONSTANTS MaxSteps, DoEmit

VARIABLES acts
Msgs == {"m"}
Annotated == << <<"text", "a">>, <<"mark", "!">>, <<"color", "yb">>, <<"text", "@z">> >>
Init == MInit /\ acts = <<>>
Do(a) == acts' = Append(acts, a)
Next ==
  /\ Len(acts) < MaxSteps
  /\ \/ \E l \in Levels, to \in {"", "file"} :
          Say(l, "m", to, "\n") /\ Do(<<"say", l, to>>)
     \/ Die("m") /\ Do(<<"die">>)
     \/ Format(Annotated) /\ Do(<<"format">>)
     \/ Set(~verbose, debug, color, pdb) /\ Do(<<"verbose">>)
     \/ Set(verbose, ~debug, color, pdb) /\ Do(<<"debug">>)
     \/ Set(verbose, debug, ~color, pdb) /\ Do(<<"color">>)
     \/ Set(verbose, debug, color, ~pdb) /\ Do(<<"pdb">>)
     \/ \E tty, inter \in BOOLEAN :
          Uncaught(tty, inter) /\ Do(<<"uncaught", tty, inter>>)
     \/ \E opts \in SUBSET {"v", "d", "c"}, env \in SUBSET {"d"}, p \in {"", "p", "e"} :
          LET o == opts \cup (IF p = "p" THEN {"p"} ELSE {})
              e == env \cup (IF p = "e" THEN {"p"} ELSE {})
          IN Arguments(o, e) /\ Do(<<"arguments", o, e>>)

HasEsc(s) == \E k \in 1..Len(s) : SubSeq(s, k, k) = "^"
NoColors == ~color => ~HasEsc(result) /\ \A s \in DOMAIN wrote : ~HasEsc(wrote[s])
OneStream == Cardinality({s \in DOMAIN wrote : wrote[s] # ""}) <= 1
\* colors never leak into what follows
Ends(s) == Len(s) >= 5 /\ SubSeq(s, Len(s) - 4, Len(s)) = "^[0m\n"
Reset == \A s \in DOMAIN wrote : HasEsc(wrote[s]) => Ends(wrote[s])
Quiet == (acts # <<>> /\ acts[Len(acts)][1] = "say") =>
  LET l == acts[Len(acts)][2] IN
  /\ (l = "debug" /\ ~debug) => wrote = Nothing
  /\ (l = "info_v" /\ ~verbose) => wrote = Nothing
  /\ (l \in {"info", "warning", "error"}) => wrote # Nothing
\* the debugger opens only where it was asked for, and there always
Debugger == (acts # <<>> /\ acts[Len(acts)][1] = "uncaught") =>
  LET a == acts[Len(acts)] IN
  (result = "debugger") = (pdb /\ a[2] /\ ~a[3])
\* different names of one escape sequence
ASSUME \A k \in 1..8 : Numbers[ColorNames[k]] = Numbers[ColorShort[k] \o "f"]
                       /\ Numbers[ColorNames[k] \o "b"] = Numbers[ColorShort[k] \o "b"]
ASSUME Cardinality({Numbers[n] : n \in Names}) = 9 + 16
Emit == (DoEmit /\ Len(acts) = MaxSteps) => PrintT("@@" \o ToJson([acts |-> acts]))
==============================================================================
