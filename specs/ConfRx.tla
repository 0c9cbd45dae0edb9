------------------------------ MODULE ConfRx ------------------------------
(* Self-check of Rx.tla against Go's regexp: each case is an expression, a      *)
(* subject, a template and what Go answered.                                    *)
EXTENDS Names, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
Init == i \in 1..Len(Cases) /\ verdict = "todo"
Next ==
  /\ verdict = "todo"
  /\ i' = i
  /\ LET c == Cases[i]
         got == ApplyRule([from |-> c.from, ci |-> c.ci, to |-> c.to, tr |-> "", act |-> "replace", load |-> ""], c.s)
         ok == got = c.want /\ (Matches(c.from, c.ci, c.s) <=> c.matched)
     IN /\ PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> ok, got |-> got]))
        /\ verdict' = IF ok THEN "ok" ELSE "bad"
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
