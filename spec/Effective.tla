------------------------------ MODULE Effective ------------------------------
(* The configuration that is in force for a run of xylem, and what a run     *)
(* that only prints it does.                                                 *)
EXTENDS Config

Ov == INSTANCE Override WITH Ws <- {" ", "\t", "\n"}

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
RECURSIVE Glue(_)
Glue(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Glue(Tail(cs))

\* value of the item (group, key)
At(desc, vals, g, k) ==
  vals[CHOOSE i \in DOMAIN desc : desc[i].group = g /\ desc[i].key = k]

\* the entries that are worked out from the others
Derived(desc, vals, a, home, cwd) ==
  LET ov == At(desc, vals, "", "os_override")
      p == Ov!Parse(Chars(ov[2]))
      set == [cache |-> <<>>, sources |-> <<>>,
              user |-> At(desc, vals, "", "user_sources") = <<"b", TRUE>>]
      One(i) ==
        IF desc[i].group = "" /\ desc[i].key = "os_override" /\ ov # Null
        THEN <<"l", << Text(Glue(p.name)),
                       IF p.version = <<>> THEN Null
                       ELSE Text(Glue(p.version[1])) >> >>
        ELSE IF desc[i].group = "os_options" /\ desc[i].key = "features" /\ ov # Null
        THEN IF p.features = <<>> THEN vals[i]
             ELSE <<"l", [n \in DOMAIN p.features[1] |->
                            Text(Glue(p.features[1][n]))]>>
        ELSE IF desc[i].group = "" /\ desc[i].key = "cache_dir" /\ vals[i] = Null
        THEN Text(PathText(CacheDir(a, set, home, cwd)))
        ELSE IF desc[i].group = "" /\ desc[i].key = "sources_dir" /\ vals[i] = Null
        THEN Text(PathText(SourcesDir(a, set, home, cwd)))
        ELSE vals[i]
  IN [i \in DOMAIN desc |-> One(i)]

\* the configuration in force, or Err
InForce(w) ==
  LET m == MergeAll(w.desc, Layers(w.desc, w.given, w.files, w.which, w.env))
  IN IF IsOk(m)
     THEN Ok(AsValue(w.desc, Derived(w.desc, m[2], w.a, w.env.home, w.env.cwd)))
     ELSE Err

\* ---- one run ----------------------------------------------------------------
\* st: [phase, config, out, ran, touched]
Start == [phase |-> "start", config |-> Err, out |-> <<>>, ran |-> FALSE]
\* the next state of a run of the world w, print: whether only to print
Step(w, print, st) ==
  CASE st.phase = "start" ->
         LET c == InForce(w)
         IN [st EXCEPT !.phase = IF IsOk(c) THEN "configured" ELSE "rejected",
                       !.config = c]
    [] st.phase = "configured" ->
         IF print THEN [st EXCEPT !.phase = "done", !.out = <<st.config[2]>>]
         ELSE [st EXCEPT !.phase = "done", !.ran = TRUE]
    [] OTHER -> st
Final(w, print) == Step(w, print, Step(w, print, Start))
==============================================================================
