----------------------------- MODULE ConfGuards -----------------------------
(* What calls of a generated package were seen to do, against Guards.tla. *)
EXTENDS Guards, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
In(c) == [fns |-> c.fns, vals |-> c.vals,
          calls |-> [j \in 1..Len(c.calls) |-> [f |-> c.calls[j].f, n |-> c.calls[j].n,
                       bad |-> {<<c.calls[j].bad[h][1], c.calls[j].bad[h][2]>> : h \in 1..Len(c.calls[j].bad)}]]]
Init == i \in 1..Len(Cases) /\ verdict = "none" /\ InitWith(In(Cases[i]))
Obs == Cases[i].obs
Say(ok, diff) == PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> ok, na |-> FALSE, diff |-> diff]))
Run == ~Finished /\ verdict = "none" /\ Cases[i].err = "" /\ Next /\ UNCHANGED <<i, verdict>>
Judge ==
  /\ verdict = "none" /\ (IF Cases[i].err # "" THEN TRUE ELSE Finished)
  /\ UNCHANGED <<vars, i>>
  /\ IF Cases[i].err # "" THEN verdict' = "bad" /\ Say(FALSE, Cases[i].err)
     ELSE IF Obs = log THEN verdict' = "good" /\ Say(TRUE, "")
     ELSE LET d == {j \in 1..(Len(log) + Len(Obs)) : ~(j <= Len(log) /\ j <= Len(Obs) /\ log[j] = Obs[j])}
              j == CHOOSE j \in d : \A h \in d : j <= h
          IN verdict' = "bad" /\ Say(FALSE, [at |-> j, want |-> IF j <= Len(log) THEN log[j] ELSE <<>>, got |-> IF j <= Len(Obs) THEN Obs[j] ELSE <<>>])
Spec == Init /\ [][Run \/ Judge]_<<vars, i, verdict>>
=============================================================================
