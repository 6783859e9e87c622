------------------------------ MODULE CapyWriter ------------------------------
(* How a document gets to its file: written under another name, brought to    *)
(* disk, closed, renamed.  Any of up to MaxFail calls may fail and the process *)
(* may be killed at any moment.  TLC checks the guarantee in every state and  *)
(* prints one fault plan per terminal behaviour: what failed or where the     *)
(* process died, and what must be found afterwards.                           *)
EXTENDS FileSys, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CAPY_WRITER)
W == Cfg.writes          \* number of writes the document takes
MaxFail == Cfg.maxfail
Target == "t"  Temp == "t~"
VARIABLES pc, fs, k, ok, plan, had
vars == <<pc, fs, k, ok, plan, had>>
Names == (IF had THEN {Target} ELSE {}) \cup {"other"}
Ev(op, a, b, ret) == [op |-> op, a |-> a, b |-> b, fd |-> 3, ret |-> ret, t |-> TRUE]
Init == /\ had \in BOOLEAN /\ pc = "open" /\ fs = Initial(Names) /\ k = 0 /\ ok = FALSE /\ plan = <<>>
Fails == Len(plan)
Dead == pc \in {"killed", "end"}
\* one call: either it works and we go to good, or (faults left) it fails and we go to bad
Call(op, a, b, ret, good, bad) ==
  \/ /\ fs' = Act(fs, Ev(op, a, b, ret)) /\ pc' = good /\ UNCHANGED plan
  \/ /\ Fails < MaxFail /\ pc' = bad /\ UNCHANGED fs /\ plan' = Append(plan, [op |-> op, k |-> k, kill |-> FALSE])
Open == pc = "open" /\ Call("open", Temp, "", 3, "write", "end") /\ UNCHANGED <<k, ok, had>>
Write == pc = "write" /\ IF k = W THEN pc' = "sync" /\ UNCHANGED <<fs, plan, k, ok, had>>
         ELSE Call("write", Temp, "", 1, "write", "closebad") /\ k' = k + 1 /\ UNCHANGED <<ok, had>>
Sync == pc = "sync" /\ Call("fsync", Temp, "", 0, "close", "closebad") /\ UNCHANGED <<k, ok, had>>
Close == pc = "close" /\ Call("close", Temp, "", 0, "rename", "unlink") /\ UNCHANGED <<k, ok, had>>
CloseBad == pc = "closebad" /\ fs' = Act(fs, Ev("close", Temp, "", 0)) /\ pc' = "unlink" /\ UNCHANGED <<plan, k, ok, had>>
Rename == pc = "rename" /\ Call("rename", Temp, Target, 0, "good", "unlink") /\ UNCHANGED <<k, ok, had>>
Unlink == pc = "unlink" /\ Call("unlink", Temp, "", 0, "end", "end") /\ UNCHANGED <<k, ok, had>>
Good == pc = "good" /\ ok' = TRUE /\ pc' = "end" /\ UNCHANGED <<fs, k, plan, had>>
Kill == pc \notin {"killed", "end", "good", "closebad"} /\ plan = <<>> /\ pc' = "killed"
        /\ plan' = <<[op |-> (CASE pc = "sync" -> "fsync" [] OTHER -> pc), k |-> k, kill |-> TRUE]>> /\ UNCHANGED <<fs, k, ok, had>>
Show == ~Dead \/ PrintT("@@" \o ToJson([plan |-> plan, had |-> had, ok |-> ok, killed |-> pc = "killed",
                       target |-> Holds(fs, Target, W)]))
Next == Open \/ Write \/ Sync \/ Close \/ CloseBad \/ Rename \/ Unlink \/ Good \/ Kill
Spec == Init /\ [][Next]_vars
UnlinkFailed == \E j \in DOMAIN plan : plan[j].op = "unlink" /\ ~plan[j].kill
Inv == /\ Safe(fs, Names, Target, W)
       /\ pc = "end" => Ended(fs, Names, Target, W, ok, UnlinkFailed)
       /\ pc = "end" /\ plan = <<>> => ok
       /\ Show
================================================================================
