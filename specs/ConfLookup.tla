----------------------------- MODULE ConfLookup -----------------------------
EXTENDS Lookup, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
Init == \E j \in 1..Len(Cases) : i = j /\ verdict = "todo" /\ InitWith(Cases[j].in)
Judge ==
  /\ Finished /\ verdict = "todo"
  /\ LET o == Cases[i].obs
         gotIds == {o.ids[j] : j \in 1..Len(o.ids)}
         gotConsts == {o.consts[j] : j \in 1..Len(o.consts)}
         ok == code = "unspecified" \/
               /\ o.code = code
               /\ code = "success" => gotIds = ids /\ gotConsts = Constants
     IN /\ PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> ok, na |-> code = "unspecified",
              diff |-> IF ok THEN <<>> ELSE [code |-> <<code, o.code>>, ids |-> <<ids \ gotIds, gotIds \ ids>>,
                                             consts |-> <<Constants \ gotConsts, gotConsts \ Constants>>]]))
        /\ verdict' = IF ok THEN "ok" ELSE "bad"
  /\ UNCHANGED <<vars, i>>
ConfNext == (verdict = "todo" /\ ~Finished /\ Next /\ UNCHANGED <<i, verdict>>) \/ Judge
Spec == Init /\ [][ConfNext]_<<vars, i, verdict>>
=============================================================================
