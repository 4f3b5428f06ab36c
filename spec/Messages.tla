------------------------------- MODULE Messages ------------------------------
(* Messages of xylem: where they go, how they look, and which switches and   *)
(* global arguments decide that.  "^" stands for the escape character.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES verbose, debug, color, pdb, wrote, result
\* wrote: what the last step put on the streams; result: what it returned
gvars == <<verbose, debug, color, pdb, wrote, result>>

Nothing == [out |-> "", err |-> "", file |-> ""]
On(stream, s) == [Nothing EXCEPT ![stream] = s]

ColorNames == <<"black", "red", "green", "yellow", "blue", "purple", "cyan", "white">>
ColorShort == <<"k", "r", "g", "y", "b", "p", "c", "w">>
Attributes == [reset |-> "0", boldon |-> "1", italicson |-> "3", ulon |-> "4",
               invon |-> "7", boldoff |-> "22", italicsoff |-> "23",
               uloff |-> "24", invoff |-> "27"]
\* the names of all escape sequences and the number in them
Numbers ==
  Attributes @@
  [n \in {ColorNames[k] : k \in 1..8} |->
     "3" \o ToString((CHOOSE k \in 1..8 : ColorNames[k] = n) - 1)] @@
  [n \in {ColorNames[k] \o "f" : k \in 1..8} |->
     "3" \o ToString((CHOOSE k \in 1..8 : ColorNames[k] \o "f" = n) - 1)] @@
  [n \in {ColorShort[k] \o "f" : k \in 1..8} |->
     "3" \o ToString((CHOOSE k \in 1..8 : ColorShort[k] \o "f" = n) - 1)] @@
  [n \in {ColorNames[k] \o "b" : k \in 1..8} |->
     "4" \o ToString((CHOOSE k \in 1..8 : ColorNames[k] \o "b" = n) - 1)] @@
  [n \in {ColorShort[k] \o "b" : k \in 1..8} |->
     "4" \o ToString((CHOOSE k \in 1..8 : ColorShort[k] \o "b" = n) - 1)]
Names == DOMAIN Numbers
Esc(c, name) == IF c THEN "^[" \o Numbers[name] \o "m" ELSE ""

\* annotated text: pieces of text, marks and colors
Mark == ("!" :> "boldon") @@ ("/" :> "italicson") @@ ("_" :> "ulon") @@ ("|" :> "reset")
RECURSIVE Pieces(_, _)
Pieces(c, ps) ==
  IF ps = <<>> THEN ""
  ELSE (CASE ps[1][1] = "text" -> ps[1][2]
          [] ps[1][1] = "mark" -> Esc(c, Mark[ps[1][2]])
          [] ps[1][1] = "color" -> Esc(c, ps[1][2]))
       \o Pieces(c, Tail(ps))
Formatted(c, ps) == Pieces(c, ps) \o Esc(c, "reset")

Levels == {"debug", "info", "warning", "error", "info_v"}
Stream(level) == IF level = "info" THEN "out" ELSE "err"
Look(c, level, msg) ==
  (CASE level = "debug" -> Esc(c, "greenf")
     [] level = "warning" -> Esc(c, "yellowf")
     [] level = "error" -> Esc(c, "redf") \o Esc(c, "boldon")
     [] OTHER -> "") \o msg \o Esc(c, "reset")
Shown(level) == (level = "debug" => debug) /\ (level = "info_v" => verbose)

MInit == verbose = FALSE /\ debug = FALSE /\ color = TRUE /\ pdb = FALSE
         /\ wrote = Nothing /\ result = ""

\* a message; to is "" or "file"; end is what ends the line
Say(level, msg, to, end) ==
  /\ wrote' = IF Shown(level)
              THEN On(IF to = "" THEN Stream(level) ELSE to, Look(color, level, msg) \o end)
              ELSE Nothing
  /\ result' = IF level = "info_v" /\ ~verbose THEN "none" ELSE Look(color, level, msg)
  /\ UNCHANGED <<verbose, debug, color, pdb>>
\* an error that ends the process: its text is what the process exits with
Die(msg) ==
  /\ wrote' = Nothing /\ result' = "exit: " \o Look(color, "error", msg)
  /\ UNCHANGED <<verbose, debug, color, pdb>>
Format(ps) ==
  /\ wrote' = Nothing /\ result' = Formatted(color, ps)
  /\ UNCHANGED <<verbose, debug, color, pdb>>
Code(name) ==
  /\ wrote' = Nothing /\ result' = Esc(color, name)
  /\ UNCHANGED <<verbose, debug, color, pdb>>
Set(v, d, c, p) == verbose' = v /\ debug' = d /\ color' = c /\ pdb' = p
                   /\ wrote' = Nothing /\ result' = ""
\* global arguments: a set of letters, and what the environment asks for:
\* debug messages ("d"), the debugger ("p")
Arguments(opts, env) ==
  Set(verbose \/ "v" \in opts, "d" \in opts \cup env,
      color /\ "c" \notin opts, "p" \in opts \cup env)
\* an exception that nobody caught: always its traceback, and the debugger if
\* that was asked for and somebody is there to use it, who is not already in
\* an interactive interpreter
Uncaught(tty, interactive) ==
  /\ wrote' = On("err", "traceback")
  /\ result' = IF pdb /\ tty /\ ~interactive THEN "debugger" ELSE "none"
  /\ UNCHANGED <<verbose, debug, color, pdb>>

\* a process with these arguments: what is seen of it
\* (something asked for is not there; the OS that is asked for is unknown)
Scenarios == {"fine", "fails", "error"}
Process(opts, env, scenario) ==
  [exit |-> IF scenario = "fine" THEN 0 ELSE 1,
   verbose |-> "v" \in opts,
   \* (there is a message about the sources, once the OS is known)
   debug |-> scenario # "error" /\ ("d" \in opts \/ env),
   traceback |-> scenario = "error" /\ ("d" \in opts \/ env),
   message |-> scenario # "fine",
   answer |-> scenario = "fine",
   colors |-> "c" \notin opts]
==============================================================================
