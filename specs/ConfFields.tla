---------------------------- MODULE ConfFields ---------------------------
(* Each case is a header of structs with tips, and the struct types that the    *)
(* real generator wrote for it.                                                 *)
EXTENDS Types, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict, at, field, out, bad
vars == <<i, verdict, at, field, out, bad>>

X == Cases[i]
Init == i \in 1..Len(Cases) /\ verdict = "todo" /\ at = 1 /\ field = 1 /\ out = <<>> /\ bad = {}

S == X.structs[at]
Step ==
  /\ verdict = "todo" /\ at <= Len(X.structs) /\ field <= Len(S.fields)
  /\ out' = FieldStep(X.env, X.opts, X.ptips, X.ttips, X.mtips, S, field, out)
  /\ field' = field + 1 /\ UNCHANGED <<i, verdict, at, bad>>

Seen == IF S.name \in DOMAIN X.obs.structs THEN X.obs.structs[S.name] ELSE [kind |-> "missing", fields |-> <<>>, ref |-> <<>>, expr |-> X.obs.err]
StructOK ==
  IF ~X.env[S.name].acc THEN Seen.kind = "missing"
  ELSE IF StaysC(X.env, X.mtips, S.name) THEN Seen.kind # "struct" /\ Seen.expr = "C." \o X.env[S.name].cgo
  ELSE Seen.kind = "struct" /\ Seen.fields = out /\ Seen.ref = <<"*C." \o X.env[S.name].cgo, "interface{}">>
Close ==
  /\ verdict = "todo" /\ at <= Len(X.structs) /\ field > Len(S.fields)
  /\ bad' = IF StructOK THEN bad ELSE bad \cup {<<S.name, out, Seen>>}
  /\ at' = at + 1 /\ field' = 1 /\ out' = <<>> /\ UNCHANGED <<i, verdict>>

Judge ==
  /\ verdict = "todo" /\ at > Len(X.structs)
  /\ verdict' = (IF bad = {} THEN "ok" ELSE "bad")
  /\ PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> bad = {}, na |-> FALSE, diff |-> [structs |-> bad, err |-> X.obs.err]]))
  /\ UNCHANGED <<i, at, field, out, bad>>

Next == Step \/ Close \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
