------------------------------ MODULE Sources -------------------------------
(* Which sources a sources directory defines, and in which order.            *)
(* A directory is a set of directory entries [name |-> character codes,      *)
(* type |-> "file"/"dir"/..., content]; content is <<"bad">> (not YAML) or   *)
(* <<"doc", encoded value>>.  kinds: name of a kind of source -> does it     *)
(* take (encoded) arguments, and which identity do they have.                *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE LexLess(_, _)
LexLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1]
  ELSE LexLess(Tail(a), Tail(b))

DOT == 46
YAMLEXT == <<46, 121, 97, 109, 108>>
EndsWith(n, e) == Len(n) >= Len(e) /\ SubSeq(n, Len(n) - Len(e) + 1, Len(n)) = e

\* (a symbolic link to a regular file, type "link", is read like the file)
Considered(f) == f.type \in {"file", "link"} /\ f.name # <<>>
                 /\ f.name[1] # DOT /\ EndsWith(f.name, YAMLEXT)

RECURSIVE SortFiles(_)
SortFiles(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE f \in S : \A g \in S : f = g \/ LexLess(f.name, g.name)
       IN <<m>> \o SortFiles(S \ {m})

Files(D) == SortFiles({f \in D : Considered(f)})

\* one entry of a source list
IsEntry(e, kinds) ==
  /\ e[1] = "d"
  /\ Cardinality(DOMAIN e[2]) = 1
  /\ LET k == CHOOSE k \in DOMAIN e[2] : TRUE
     IN k \in DOMAIN kinds /\ kinds[k].takes[e[2][k][1]]
\* (keys that are not text never are the name of a kind)

KindOf(e) == CHOOSE k \in DOMAIN e[2] : TRUE
Source(f, e) == [kind |-> KindOf(e), args |-> e[2][KindOf(e)], file |-> f.name]
\* the identity of a source: its arguments, for all kinds used here
Identity(s) == s.args

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

\* result: [ok, sources, reported]
Read(D, kinds) ==
  LET fs == Files(D)
      docs == SelectSeq(fs, LAMBDA f : f.content[1] = "doc")
      badfs == {f.name : f \in {fs[i] : i \in {j \in DOMAIN fs : fs[j].content[1] = "bad"}}}
      fine == \A i \in DOMAIN docs :
                /\ docs[i].content[2][1] = "l"
                /\ \A j \in DOMAIN docs[i].content[2][2] :
                     IsEntry(docs[i].content[2][2][j], kinds)
      all == Concat([i \in DOMAIN docs |->
                [j \in DOMAIN docs[i].content[2][2] |->
                   Source(docs[i], docs[i].content[2][2][j])]])
      unique == \A i, j \in DOMAIN all : i # j => Identity(all[i]) # Identity(all[j])
  IN IF fine
     THEN IF unique THEN [ok |-> TRUE, sources |-> all, reported |-> badfs]
          ELSE [ok |-> FALSE, sources |-> <<>>, reported |-> badfs]
     ELSE [ok |-> FALSE, sources |-> <<>>, reported |-> {}]
=============================================================================
