------------------------------ MODULE CapyFsTrace -----------------------------
(* Recorded system calls of real writes, checked against the file system       *)
(* model and the guarantee of P11 at every point of every record.              *)
EXTENDS FileSys, Json, IOUtils
Runs == JsonDeserialize(IOEnv.CAPY_TRACES)
VARIABLES r, j, fs
vars == <<r, j, fs>>
Names(x) == {Runs[x].names[q] : q \in DOMAIN Runs[x].names}
Init == r \in DOMAIN Runs /\ j = 0 /\ fs = Initial(Names(r))
Next == j < Len(Runs[r].ev) /\ j' = j + 1 /\ fs' = Act(fs, Runs[r].ev[j + 1]) /\ UNCHANGED r
Spec == Init /\ [][Next]_vars
UnlinkFailed(x) == \E q \in DOMAIN Runs[x].ev : Runs[x].ev[q].op = "unlink" /\ Runs[x].ev[q].ret < 0
\* what the real directory holds afterwards
Real(x) == Runs[x].dir
Bad ==
  LET x == Runs[r]  w == Why(fs, Names(r), x.target, x.whole) IN
  IF w # "" THEN w ELSE
  IF j < Len(x.ev) THEN "" ELSE
  IF \E q \in DOMAIN x.dir : x.dir[q] # Holds(fs, q, x.whole) THEN "the directory is not what the recorded calls make of it"
  ELSE IF \E q \in Dom(fs.dir) : q \notin DOMAIN x.dir THEN "a file is missing that the recorded calls leave"
  ELSE IF x.killed THEN ""
  ELSE IF ~Ended(fs, Names(r), x.target, x.whole, x.ok, UnlinkFailed(r))
       THEN (IF x.ok THEN "success was reported" ELSE "an error was reported") \o " but the target holds " \o Holds(fs, x.target, x.whole)
            \o " and these files remain: " \o ToString(Dom(fs.dir))
  ELSE ""
Inv == Bad = "" \/ PrintT("@@" \o ToJson([run |-> r, at |-> j, why |-> Bad]))
================================================================================
