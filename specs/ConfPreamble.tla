---------------------------- MODULE ConfPreamble ----------------------------
EXTENDS Preamble, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, f, verdict
(* one behaviour per file of each case; the verdict of a case is given by its last file *)
Init == \E j \in 1..Len(Cases) : i = j /\ f = 1 /\ verdict = <<>> /\ InitWith(Cases[j].in, Cases[j].obs[1].kind)
Files == Cases[i].obs
Bad == LET o == Files[f] IN
       IF o.head = head /\ o.body = body /\ o.pkg = (IF kind \in {"h", "c"} THEN "" ELSE x.pkg) /\ o.hasC = (kind = "go") THEN <<>>
       ELSE <<[file |-> o.name, head |-> head, gotHead |-> o.head, body |-> body, gotBody |-> o.body, pkg |-> o.pkg, hasC |-> o.hasC]>>
NextFile ==
  /\ Finished /\ f <= Len(Files)
  /\ verdict' = verdict \o Bad
  /\ f' = f + 1
  /\ IF f < Len(Files)
     THEN sec' = 1 /\ head' = <<>> /\ body' = <<>> /\ kind' = Files[f + 1].kind
     ELSE /\ UNCHANGED <<sec, head, body, kind>>
          /\ PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> verdict \o Bad = <<>>, diff |-> verdict \o Bad]))
  /\ UNCHANGED <<x, i>>
ConfNext == (~Finished /\ Next /\ UNCHANGED <<i, f, verdict>>) \/ NextFile
Spec == Init /\ [][ConfNext]_<<vars, i, f, verdict>>
=============================================================================
