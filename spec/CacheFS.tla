------------------------------ MODULE CacheFS -------------------------------
(* The file system below the cache: names, inodes, open files, and update    *)
(* processes that execute file-system operations one by one, can be killed   *)
(* between any two of them, and run concurrently.  The operations of each    *)
(* update are its "program", recorded from the real code; programs are read  *)
(* from PROGS.  Program 1..K run concurrently, program K+1 is an update that *)
(* runs undisturbed once all others have ended or died.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES dir,      \* path -> inode number (0: no such name)
          content,  \* inode number -> sequence of written pieces
          fds,      \* process -> handle -> [ino, pos]
          pc, alive,
          seen      \* inodes that were visible under the name of the entry

vars == <<dir, content, fds, pc, alive, seen>>

In == JsonDeserialize(IOEnv.PROGS)
Progs == In.programs
Initially == In.initial
K == Len(Progs) - 1
Procs == 1..Len(Progs)
Ops(p) == Progs[p]

Paths == UNION {UNION {{Ops(p)[i].p, Ops(p)[i].q} : i \in DOMAIN Ops(p)}
                : p \in Procs} \cup {"entry1"}
Handles == UNION {{Ops(p)[i].h : i \in DOMAIN Ops(p)} : p \in Procs}

\* the complete new version of program p: all pieces it writes, in order
Writes(p) == SelectSeq([i \in DOMAIN Ops(p) |->
               IF Ops(p)[i].o = "write" THEN i ELSE 0], LAMBDA i : i # 0)
Full(p) == [k \in 1..Len(Writes(p)) |-> <<p, Writes(p)[k]>>]
Old == <<<<0, 0>>>>
Complete(c) == c = Old \/ \E p \in Procs : c = Full(p)

Init ==
  /\ dir = [x \in Paths |-> IF x = "entry1" /\ Initially THEN 1 ELSE 0]
  /\ content = <<Old>>
  /\ fds = [p \in Procs |-> [h \in Handles |-> [ino |-> 0, pos |-> 0]]]
  /\ pc = [p \in Procs |-> 1]
  /\ alive = [p \in Procs |-> TRUE]
  /\ seen = IF Initially THEN {1} ELSE {}

Ended(p) == pc[p] > Len(Ops(p))
Stopped(p) == Ended(p) \/ ~alive[p]
MayRun(p) == /\ alive[p] /\ ~Ended(p)
             /\ p = K + 1 => \A o \in 1..K : Stopped(o)

Advance(p) == pc' = [pc EXCEPT ![p] = @ + 1]
\* the operation fails: the process gives up
Fails(p) == /\ alive' = [alive EXCEPT ![p] = FALSE]
            /\ UNCHANGED <<dir, content, fds, pc>>

WriteAt(c, pos, x) ==
  IF pos < Len(c) THEN [c EXCEPT ![pos + 1] = x]
  ELSE Append(c, x)       \* (no holes: positions only grow by writing)

Exec(p) ==
  LET op == Ops(p)[pc[p]] IN
  CASE op.o = "open" ->
         IF dir[op.p] = 0 THEN
           IF ~op.creat THEN Fails(p)
           ELSE /\ content' = Append(content, <<>>)
                /\ dir' = [dir EXCEPT ![op.p] = Len(content) + 1]
                /\ fds' = [fds EXCEPT ![p][op.h] =
                            [ino |-> Len(content) + 1, pos |-> 0]]
                /\ Advance(p) /\ UNCHANGED alive
         ELSE IF op.excl THEN Fails(p)
         ELSE /\ content' = [content EXCEPT ![dir[op.p]] =
                              IF op.trunc THEN <<>> ELSE @]
              /\ fds' = [fds EXCEPT ![p][op.h] =
                          [ino |-> dir[op.p], pos |->
                            IF op.append THEN Len(content'[dir[op.p]]) ELSE 0]]
              /\ Advance(p) /\ UNCHANGED <<dir, alive>>
    [] op.o = "write" ->
         LET f == fds[p][op.h] IN
         /\ content' = [content EXCEPT ![f.ino] =
                         WriteAt(@, f.pos, <<p, pc[p]>>)]
         /\ fds' = [fds EXCEPT ![p][op.h].pos = @ + 1]
         /\ Advance(p) /\ UNCHANGED <<dir, alive>>
    [] op.o = "ftruncate" ->
         /\ content' = [content EXCEPT ![fds[p][op.h].ino] = <<>>]
         /\ Advance(p) /\ UNCHANGED <<dir, fds, alive>>
    [] op.o = "rename" ->
         IF dir[op.p] = 0 THEN Fails(p)
         ELSE /\ dir' = [dir EXCEPT ![op.q] = dir[op.p], ![op.p] = 0]
              /\ Advance(p) /\ UNCHANGED <<content, fds, alive>>
    [] op.o = "unlink" ->
         IF dir[op.p] = 0 THEN Fails(p)
         ELSE /\ dir' = [dir EXCEPT ![op.p] = 0]
              /\ Advance(p) /\ UNCHANGED <<content, fds, alive>>
    [] OTHER -> Advance(p) /\ UNCHANGED <<dir, content, fds, alive>>

Look == seen' = IF dir'["entry1"] = 0 THEN seen ELSE seen \cup {dir'["entry1"]}

Run(p) == MayRun(p) /\ Exec(p) /\ Look
Kill(p) == /\ p # K + 1 /\ alive[p] /\ ~Ended(p)
           /\ alive' = [alive EXCEPT ![p] = FALSE]
           /\ UNCHANGED <<dir, content, fds, pc, seen>>

Next == \E p \in Procs : Run(p) \/ Kill(p)

\* ---- properties ----------------------------------------------------------------
\* once there is an entry there always is one
NeverMissing == seen # {} => dir["entry1"] # 0
\* whatever a reader opened, at whatever time it reads, is one whole version
AlwaysComplete == \A i \in seen : Complete(content[i])
\* the undisturbed update wins, and nothing makes it fail
Recovers == /\ Ended(K + 1) => content[dir["entry1"]] = Full(K + 1)
            /\ alive[K + 1]
\* concurrent updates do not make each other fail, and one of them wins
Progress == (\A p \in 1..K : Ended(p)) /\ pc[K + 1] = 1 /\ K > 0 =>
            \E p \in 1..K : content[dir["entry1"]] = Full(p)
=============================================================================
