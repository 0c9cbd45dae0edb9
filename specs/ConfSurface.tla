---------------------------- MODULE ConfSurface ---------------------------
(* Each case is a header; obs.err is what go build (or c-for-go) says about    *)
(* the generated package, obs.api what the package offers for its types.       *)
EXTENDS Surface, FiniteSets, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, at, api, verdict
vars == <<i, at, api, verdict>>
X == Cases[i]

Init == i \in 1..Len(Cases) /\ at = 1 /\ api = {} /\ verdict = "todo"
Step ==
  /\ at <= Len(X.types) /\ at' = at + 1
  /\ api' = SurfaceStep(X.types[at], X.accessors, api) /\ UNCHANGED <<i, verdict>>

Seen == {X.obs.api[j] : j \in DOMAIN X.obs.api}
Lacks == {e \in api : e \notin Seen}
Extra == {e \in Seen : e \notin api}
Twice == Len(X.obs.api) # Cardinality(Seen)
OK == X.obs.err = "" /\ (X.free \/ (Lacks = {} /\ Extra = {} /\ ~Twice))

Judge ==
  /\ verdict = "todo" /\ at > Len(X.types)
  /\ verdict' = (IF OK THEN "ok" ELSE "bad")
  /\ PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> OK, na |-> FALSE, diff |-> [err |-> X.obs.err, lacks |-> Lacks, extra |-> Extra, twice |-> Twice]]))
  /\ UNCHANGED <<i, at, api>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
