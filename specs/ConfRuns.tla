------------------------------ MODULE ConfRuns ------------------------------
(* Recorded histories of runs: the disk after every step against Runs.tla. *)
EXTENDS Runs, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
ToSet(s) == {s[j] : j \in 1..Len(s)}
In(c) == [memo |-> {[arg |-> c.memo[j].arg, files |-> ToSet(c.memo[j].files)] : j \in 1..Len(c.memo)}, steps |-> c.steps]
Init == i \in 1..Len(Cases) /\ verdict = "none" /\ InitWith(In(Cases[i]))
Say(ok, diff) == PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> ok, na |-> FALSE, diff |-> diff]))
(* at the end of a step the disk is what was seen *)
Seen == ToSet(Cases[i].obs[k - 1])
Off == a = 0 /\ k > 1 /\ disk # Seen
Run == verdict = "none" /\ ~Off /\ ~Finished /\ Cases[i].err = "" /\ Next /\ UNCHANGED <<i, verdict>>
Judge ==
  /\ verdict = "none" /\ UNCHANGED <<vars, i>>
  /\ IF Cases[i].err # "" THEN verdict' = "bad" /\ Say(FALSE, Cases[i].err)
     ELSE IF Off THEN verdict' = "bad" /\ Say(FALSE, [step |-> k - 1, missing |-> disk \ Seen, surplus |-> Seen \ disk])
     ELSE Finished /\ verdict' = "good" /\ Say(TRUE, "")
Spec == Init /\ [][Run \/ Judge]_<<vars, i, verdict>>
=============================================================================
