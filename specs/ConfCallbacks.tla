--------------------------- MODULE ConfCallbacks ---------------------------
(* Recorded histories of callbacks against Callbacks.tla.                        *)
EXTENDS Callbacks, Json, IOUtils, TLC
VARIABLES i, j, verdict
Cases == JsonDeserialize(IOEnv.CASES)
In(c, h) == [params |-> c.model.params, res |-> c.model.res, nslots |-> c.model.nslots, funcs |-> c.model.funcs, calls |-> c.model.calls,
             heap |-> c.model.heap, events |-> IF c.err = "" THEN c.hist[c.runs[h]] ELSE <<>>]
Init == /\ i \in 1..Len(Cases) /\ j = 1 /\ verdict = "none"
        /\ InitWith(In(Cases[i], 1))
Say(ok, diff) == PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> ok, na |-> FALSE, diff |-> diff]))
Run == ~Done /\ verdict = "none" /\ Next /\ UNCHANGED <<i, j, verdict>>
Judge ==
  /\ Done /\ verdict = "none"
  /\ IF Cases[i].err # "" THEN verdict' = "bad" /\ Say(FALSE, Cases[i].err) /\ UNCHANGED <<vars, i, j>>
     ELSE IF Cases[i].obs[j] # log
     THEN verdict' = "bad" /\ Say(FALSE, [history |-> Cases[i].runs[j], log |-> <<log, Cases[i].obs[j]>>]) /\ UNCHANGED <<vars, i, j>>
     ELSE IF j = Len(Cases[i].runs)
     THEN verdict' = "good" /\ Say(TRUE, "") /\ UNCHANGED <<vars, i, j>>
     ELSE LET in == In(Cases[i], j + 1)
          IN /\ j' = j + 1 /\ UNCHANGED <<i, verdict>>
             /\ x' = in /\ ei' = 1 /\ mem' = in.heap /\ stack' = <<>> /\ log' = <<>>
             /\ chosen' = [t \in 1..Len(in.params) |-> 0]
             /\ slots' = [t \in 1..Len(in.params) |-> [s \in 1..in.nslots |-> FALSE]]
             /\ calls' = [f \in 1..Len(in.funcs) |-> 0]
Spec == Init /\ [][Run \/ Judge]_<<vars, i, j, verdict>>
=============================================================================
