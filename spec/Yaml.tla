--------------------------------- MODULE Yaml --------------------------------
(* How values are written as YAML and read back.  A value is                 *)
(*   <<"s", text>>  a text        <<"n">>        nothing (null)              *)
(*   <<"x", text>>  another scalar, by what is written for it                *)
(*   <<"f", text>>  a scalar without a usual way to write it                 *)
(*   <<"l", items>> a list        <<"d", items>> a dictionary; its items are *)
(* <<key, value>> pairs with texts as keys.                                  *)
(* A style says how a document is laid out: blocks or flow for lists and for *)
(* dictionaries, what stands for nothing, and how texts are quoted.          *)
EXTENDS Naturals, Sequences, FiniteSets

Ch(s, k) == SubSeq(s, k, k)
RECURSIVE Replace(_, _, _)
Replace(s, c, by) ==
  IF s = "" THEN ""
  ELSE (IF Ch(s, 1) = c THEN by ELSE Ch(s, 1))
       \o Replace(SubSeq(s, 2, Len(s)), c, by)

\* the order of keys
Order == "ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
Rank(c) == IF \E k \in 1..Len(Order) : Ch(Order, k) = c
           THEN CHOOSE k \in 1..Len(Order) : Ch(Order, k) = c ELSE 0
RECURSIVE Before(_, _)
Before(s, t) ==
  IF t = "" THEN FALSE
  ELSE IF s = "" THEN TRUE
  ELSE IF Ch(s, 1) = Ch(t, 1)
       THEN Before(SubSeq(s, 2, Len(s)), SubSeq(t, 2, Len(t)))
       ELSE Rank(Ch(s, 1)) < Rank(Ch(t, 1))
RECURSIVE Sorted(_)
\* (odd keys stay as they are)
Sorted(items) ==
  IF items = <<>> THEN <<>>
  ELSE IF \E k \in DOMAIN items : \E n \in 1..Len(items[k][1]) :
            Rank(Ch(items[k][1], n)) = 0 THEN items
  ELSE LET k == CHOOSE k \in DOMAIN items : \A j \in DOMAIN items :
                  j = k \/ Before(items[k][1], items[j][1])
       IN <<items[k]>> \o Sorted(SubSeq(items, 1, k - 1)
                                 \o SubSeq(items, k + 1, Len(items)))

\* texts that need no quotes
Word(s) ==
  /\ s # "" /\ \A k \in 1..Len(s) : Rank(Ch(s, k)) # 0
  /\ s \notin {"null", "Null", "NULL", "true", "True", "TRUE", "false",
               "False", "FALSE", "yes", "Yes", "YES", "no", "No", "NO", "on",
               "On", "ON", "off", "Off", "OFF", "y", "n", "Y", "N"}

Styles == [seq : {"flow", "block"}, map : {"flow", "block"},
           null : {"", "null", "~", "Null"},
           quote : {"plain", "single", "double"}]
\* what xylem writes: lists on one line, quotes only where needed
Written == [seq |-> "flow", map |-> "block", null |-> "written",
            quote |-> "plain"]

Single(s) == "'" \o Replace(s, "'", "''") \o "'"
Double(s) == "\"" \o Replace(Replace(s, "\\", "\\\\"), "\"", "\\\"") \o "\""
Text(s, st) ==
  IF st.quote = "plain" /\ Word(s) THEN s
  ELSE IF st.quote = "double" THEN Double(s) ELSE Single(s)
NullText(st) == CASE st.null = "written" -> "!!null ''"
                  [] st.null = "" -> "null" [] OTHER -> st.null

RECURSIVE Flow(_, _), FlowItems(_, _, _)
\* on one line
Flow(v, st) ==
  CASE v[1] = "s" -> Text(v[2], st)
    [] v[1] = "n" -> NullText(st)
    [] v[1] = "x" -> v[2]
    [] v[1] = "l" -> "[" \o FlowItems("l", v[2], st) \o "]"
    [] v[1] = "d" -> "{" \o FlowItems("d", v[2], st) \o "}"
FlowItems(tag, items, st) ==
  IF items = <<>> THEN ""
  ELSE (IF tag = "l" THEN Flow(items[1], st)
        ELSE items[1][1] \o ": " \o Flow(items[1][2], st))
       \o (IF Len(items) > 1 THEN ", " ELSE "")
       \o FlowItems(tag, Tail(items), st)

InBlock(v, st) ==
  \/ v[1] = "l" /\ v[2] # <<>> /\ st.seq = "block"
  \/ v[1] = "d" /\ v[2] # <<>> /\ st.map = "block"
RECURSIVE Block(_, _, _), BlockItems(_, _, _, _)
\* what follows a key, or the dash of a list
After(v, ind, st) ==
  IF InBlock(v, st) THEN "\n" \o Block(v, ind \o "  ", st)
  ELSE IF v[1] = "n" /\ st.null \in {"", "written"} THEN "\n"
  ELSE " " \o Flow(v, st) \o "\n"
Block(v, ind, st) == BlockItems(v[1], v[2], ind, st)
BlockItems(tag, items, ind, st) ==
  IF items = <<>> THEN ""
  ELSE ind \o (IF tag = "l" THEN "-" \o After(items[1], ind, st)
               ELSE items[1][1] \o ":" \o After(items[1][2], ind, st))
       \o BlockItems(tag, Tail(items), ind, st)

\* a document in a style
Document(v, st) ==
  IF InBlock(v, st) THEN Block(v, "", st) ELSE Flow(v, st) \o "\n"
Documents(v) == {Document(v, st) : st \in Styles}

RECURSIVE Canon(_)
\* the same value with its keys in order; equal values, equal texts
Canon(v) ==
  CASE v[1] = "l" -> <<"l", [k \in DOMAIN v[2] |-> Canon(v[2][k])]>>
    [] v[1] = "d" -> <<"d", [k \in DOMAIN v[2] |->
         <<Sorted(v[2])[k][1], Canon(Sorted(v[2])[k][2])>>]>>
    [] OTHER -> v

\* texts that stand for something else without quotes
NeedsQuotes == {"", "1", "null", "true", "a: b", "#", "- q\"", "~", "[]", "{}",
                "x: ", "yes", "1.5", "'", "&a", "*a", "!x", "a #b", "%", "@", "`"}
RECURSIVE Usual(_)
\* values for which the specification says what the document looks like
Usual(v) ==
  CASE v[1] = "s" -> Word(v[2]) \/ v[2] \in NeedsQuotes
    [] v[1] = "l" -> \A k \in DOMAIN v[2] : Usual(v[2][k])
    [] v[1] = "f" -> FALSE
    [] v[1] = "d" -> \A k \in DOMAIN v[2] :
         Len(v[2][k][1]) < 100 /\ Word(v[2][k][1]) /\ Usual(v[2][k][2])
    [] OTHER -> TRUE

\* the document that is written for a value: keys are in order, and a
\* document without brackets or quotes is ended
Dump(v) ==
  Document(Canon(v), Written)
  \o (IF v[1] = "x" \/ (v[1] = "s" /\ Word(v[2])) THEN "...\n" ELSE "")

\* a file: written, and read back
VARIABLES value, text
yvars == <<value, text>>
WriteAs(v, st) == value' = v /\ text' = Document(v, st)
Write(v) == value' = v /\ text' = Dump(v)
Read(v) == v = Canon(value) /\ UNCHANGED yvars
==============================================================================
