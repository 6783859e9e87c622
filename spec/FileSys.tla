------------------------------- MODULE FileSys -------------------------------
(* The part of a file system that writing a document touches: a directory of  *)
(* names, files with their length, and which of their bytes have reached the  *)
(* disk.  Shared by the model of the writer (CapyWriter) and by the check of  *)
(* recorded system calls (CapyFsTrace).                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

\* fs: dir: name -> file;  ino: file -> [n |-> bytes, old |-> name it held at the start or "", dirty |-> BOOLEAN, seen |-> high-water offset];
\*     fd: descriptor -> file;  nx: next file
Dom(f) == DOMAIN f
Put(f, k, v) == [x \in Dom(f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, k) == [x \in Dom(f) \ {k} |-> f[x]]
Initial(names) ==       \* the files that are there at the start
  [dir |-> [x \in names |-> x], ino |-> [x \in names |-> [n |-> 0, old |-> x, dirty |-> FALSE]], fd |-> [x \in {} |-> ""], nx |-> 1]

\* One system call with its result; a failed call has no effect.
Act(fs, e) ==
  IF e.ret < 0 THEN fs ELSE
  CASE e.op = "open" ->         \* for writing; e.t: truncates, e.c: creates
         IF e.a \in Dom(fs.dir)
         THEN LET i == fs.dir[e.a] IN
              [fs EXCEPT !.fd = Put(@, e.ret, i), !.ino = IF e.t THEN Put(@, i, [n |-> 0, old |-> "", dirty |-> TRUE]) ELSE @]
         ELSE LET i == "new" \o ToString(fs.nx) IN
              [fs EXCEPT !.fd = Put(@, e.ret, i), !.dir = Put(@, e.a, i), !.nx = @ + 1,
                         !.ino = Put(@, i, [n |-> 0, old |-> "", dirty |-> TRUE])]
    [] e.op = "write" -> IF e.fd \notin Dom(fs.fd) THEN fs ELSE
         LET i == fs.fd[e.fd] IN [fs EXCEPT !.ino[i] = [n |-> @.n + e.ret, old |-> IF e.ret = 0 THEN @.old ELSE "", dirty |-> TRUE]]
    [] e.op = "fsync" -> IF e.fd \notin Dom(fs.fd) THEN fs ELSE [fs EXCEPT !.ino[fs.fd[e.fd]].dirty = FALSE]
    [] e.op = "close" -> IF e.fd \notin Dom(fs.fd) THEN fs ELSE [fs EXCEPT !.fd = Cut(@, e.fd)]
    [] e.op = "rename" -> IF e.a \notin Dom(fs.dir) THEN fs ELSE [fs EXCEPT !.dir = Put(Cut(@, e.a), e.b, fs.dir[e.a])]
    [] e.op = "unlink" -> [fs EXCEPT !.dir = Cut(@, e.a)]
    [] OTHER -> fs

\* what a name holds: nothing, what some name held at the start, the whole new document, or something else
Holds(fs, x, whole) ==
  IF x \notin Dom(fs.dir) THEN "absent" ELSE
  LET i == fs.ino[fs.dir[x]] IN IF i.old # "" THEN "old " \o i.old ELSE IF i.n = whole THEN "new" ELSE "partial"
Before(names, x) == IF x \in names THEN "old " \o x ELSE "absent"

\* P11.  At every moment (a crash of the process may come at any of them) the target is what it
\* was or the whole new document; what it holds has reached the disk (so the same is true of a
\* power failure); nothing else that was there changes.
Safe(fs, names, target, whole) ==
  /\ Holds(fs, target, whole) \in {Before(names, target), "new"}
  /\ target \in Dom(fs.dir) => ~fs.ino[fs.dir[target]].dirty
  /\ \A x \in names \ {target} : Holds(fs, x, whole) = Before(names, x)
\* at the end: all or nothing, and no leftovers unless they could not be removed
Ended(fs, names, target, whole, ok, unlinkfailed) ==
  /\ Holds(fs, target, whole) = (IF ok THEN "new" ELSE Before(names, target))
  /\ Dom(fs.dir) \subseteq names \cup {target} \/ (unlinkfailed /\ ~ok)
Why(fs, names, target, whole) ==
  IF Holds(fs, target, whole) \notin {Before(names, target), "new"} THEN "the target holds " \o Holds(fs, target, whole) \o " data"
  ELSE IF target \in Dom(fs.dir) /\ fs.ino[fs.dir[target]].dirty THEN "the target's data need not have reached the disk"
  ELSE IF \E x \in names \ {target} : Holds(fs, x, whole) # Before(names, x) THEN "another file is changed" ELSE ""
=============================================================================
