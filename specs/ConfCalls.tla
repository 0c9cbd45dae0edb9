----------------------------- MODULE ConfCalls -----------------------------
(* Recorded calls of generated functions against Calls.tla: for each scenario of *)
(* a package, what C saw, what was returned and what Go had afterwards.          *)
EXTENDS Calls, Json, IOUtils, TLC
VARIABLES i, j, verdict
Cases == JsonDeserialize(IOEnv.CASES)
Init == /\ i \in 1..Len(Cases) /\ j = 1 /\ verdict = "none"
        /\ IF Len(Cases[i].scen) = 0 THEN InitWith([types |-> <<>>, args |-> <<>>, heap |-> <<>>, cmds |-> <<>>, ret |-> [type |-> <<>>, cell |-> Null, n |-> 0]])
           ELSE InitWith(Cases[i].scen[1])
Say(ok, diff) == PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> ok, na |-> FALSE, diff |-> diff]))
Run == pc # "done" /\ verdict = "none" /\ Next /\ UNCHANGED <<i, j, verdict>>
Obs == Cases[i].obs[j]
Right == Cases[i].err = "" /\ Obs.log = log /\ Obs.after = After /\ Obs.ret = ret
Judge ==
  /\ pc = "done" /\ verdict = "none"
  /\ IF Cases[i].err # "" THEN verdict' = "bad" /\ Say(FALSE, Cases[i].err) /\ UNCHANGED <<vars, i, j>>
     ELSE IF ~Right
     THEN verdict' = "bad" /\ Say(FALSE, [scenario |-> j, types |-> x.types, log |-> <<log, Obs.log>>, after |-> <<After, Obs.after>>, ret |-> <<ret, Obs.ret>>]) /\ UNCHANGED <<vars, i, j>>
     ELSE IF j = Len(Cases[i].scen)
     THEN verdict' = "good" /\ Say(TRUE, "") /\ UNCHANGED <<vars, i, j>>
     ELSE LET in == Cases[i].scen[j + 1]
          IN /\ j' = j + 1 /\ UNCHANGED <<i, verdict>>
             /\ x' = in /\ pc' = "pass" /\ k' = 1 /\ heap' = in.heap /\ cargs' = <<>> /\ ci' = 1 /\ log' = <<>> /\ ret' = ""
Spec == Init /\ [][Run \/ Judge]_<<vars, i, j, verdict>>
=============================================================================
