----------------------------- MODULE EffectiveMC -----------------------------
(* Runs over all small combinations of layers, with and without printing.    *)
EXTENDS Effective, TLC
CONSTANTS Overrides, Deep
Dirs == {<<>>} \cup (IF Deep THEN {<< [s |-> "/q", y |-> Err] >>} ELSE {})
VARIABLES w, print, st

Desc == << [group |-> "", key |-> "os_override", type |-> <<"str">>,
            default |-> Null, cl |-> TRUE],
           [group |-> "os_options", key |-> "features",
            type |-> <<"list", <<"str">>>>, default |-> Null, cl |-> TRUE],
           [group |-> "", key |-> "user_sources", type |-> <<"bool">>,
            default |-> <<"b", FALSE>>, cl |-> TRUE],
           [group |-> "", key |-> "cache_dir", type |-> <<"str">>,
            default |-> Null, cl |-> TRUE],
           [group |-> "", key |-> "sources_dir", type |-> <<"str">>,
            default |-> Null, cl |-> TRUE] >>
Pair(k, v) == <<Text(k), v>>
Files == { <<"absent">>, <<"bad">> } \cup
         { <<"ok", <<"d", ov \o us \o ft>>>> :
             ov \in {<<>>, <<Pair("os_override", Text("u:2&x"))>>},
             us \in {<<>>, <<Pair("user_sources", <<"b", TRUE>>)>>,
                     <<Pair("user_sources", <<"i", "3">>)>>},
             ft \in {<<>>, <<Pair("os_options",
                               <<"d", <<Pair("features", <<"l", <<Text("y")>>>>)>>>>)>>} }
Env == [home |-> <<"h">>, cwd |-> <<"c">>, paths |-> << >>]
Texts == {<<>>} \cup {<< [s |-> o, y |-> Ok(Text(o))] >> : o \in Overrides}

Init == /\ print \in BOOLEAN
        /\ st = Start
        /\ \E fd, fs, fu \in Files, t \in Texts, which \in {"dir", "system", "both"},
              c \in Dirs :
             /\ which = "dir" => fs = <<"absent">> /\ fu = <<"absent">>
             /\ which = "system" => fd = <<"absent">> /\ fu = <<"absent">>
             /\ which = "both" => fd = <<"absent">>
             /\ w = [desc |-> Desc, which |-> which, env |-> Env,
                     given |-> << t, <<>>, <<>>, c, <<>> >>,
                     files |-> [dir |-> fd, system |-> fs, user |-> fu],
                     a |-> [prefix_cl |-> <<>>, prefix_env |-> <<>>,
                            dir_cl |-> IF which = "dir" THEN <<"", "d">> ELSE <<>>,
                            dir_env |-> <<>>]]
Next == /\ st.phase \notin {"done", "rejected"}
        /\ st' = Step(w, print, st)
        /\ UNCHANGED <<w, print>>

Ended == st.phase \in {"done", "rejected"}
(* what is printed is what the same run without printing has in force *)
PrintsWhatRuns == (Ended /\ print /\ st.phase = "done") =>
  /\ st.out = <<Final(w, FALSE).config[2]>>
  /\ Final(w, FALSE).ran
OnlyPrints == print => ~st.ran
SameRejection == Ended =>
  ((st.phase = "rejected") <=> (Final(w, ~print).phase = "rejected"))
Value(k) == Get(st.config[2], k)
(* directories are always known, the override is always taken apart *)
Complete == (Ended /\ IsOk(st.config)) =>
  /\ Value("cache_dir") # Null /\ Value("sources_dir") # Null
  /\ Value("os_override")[1] \in {"n", "l"}
(* features of the override win over configured ones *)
Features == (Ended /\ IsOk(st.config) /\ w.given[1] # <<>> /\
             w.given[1][1].s = "n&f, g") =>
  Get(Value("os_options"), "features") = <<"l", <<Text("f"), Text("g")>>>>
==============================================================================
