---------------------------- MODULE ConfTypes ----------------------------
(* Each case is a header of types and functions with tips, and the signatures   *)
(* and types that the real generator wrote for it.                              *)
EXTENDS Types, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict, at, sig, bad

X == Cases[i]
Fns == X.fns \o X.cbs
Init == i \in 1..Len(Cases) /\ verdict = "todo" /\ at = 1 /\ sig = NewSig /\ bad = {}

(* One step of the machine: a parameter or the result of a signature. *)
Step ==
  /\ verdict = "todo" /\ at <= Len(Fns) /\ ~SigDone(Fns[at], sig)
  /\ sig' = SigStep(X.env, X.opts, X.ptips, X.ttips, Fns[at], sig)
  /\ UNCHANGED <<i, verdict, at, bad>>

GoName(f, s) == IF \E j \in 1..Len(X.fns) : X.fns[j].name = f.name THEN GoFnName(f, s) ELSE f.name
Same0(f, s) ==
  /\ GoName(f, s) \in DOMAIN X.obs.fns
  /\ LET o == X.obs.fns[GoName(f, s)] IN o.params = s.params /\ o.results = s.results /\ o.recv = s.recv

Close ==
  /\ verdict = "todo" /\ at <= Len(Fns) /\ SigDone(Fns[at], sig)
  /\ bad' = IF Same0(Fns[at], sig) THEN bad ELSE bad \cup {<<Fns[at].name, sig, IF GoName(Fns[at], sig) \in DOMAIN X.obs.fns THEN X.obs.fns[GoName(Fns[at], sig)] ELSE X.obs.err>>}
  /\ at' = at + 1 /\ sig' = NewSig /\ UNCHANGED <<i, verdict>>

TypeOK(a) ==
  LET e == X.env[a]
      u == Peel(X.env, e.to, FALSE)
  IN IF ~e.acc THEN a \notin DOMAIN X.obs.types
     ELSE /\ a \in DOMAIN X.obs.types
          /\ LET t == X.obs.types[a]
             IN CASE e.k = "alias" -> t = GoType(X.env, X.opts, [e.to EXCEPT !.c = FALSE], "", "plain")
                  [] e.k = "struct" -> t = IF StaysC(X.env, X.mtips, a) THEN "C." \o e.cgo ELSE "struct"
                  [] e.k = "callback" -> t = "func"
                  [] e.k = "union" -> t = "[sizeof" \o a \o "]byte"
                  [] e.k = "enum" -> t \in {Lookup([b |-> b, p |-> 0, c |-> FALSE, arr |-> <<>>], 0, X.opts, "") : b \in {"int", "uint"}}
                  [] OTHER -> t = "C." \o e.cgo

Judge ==
  /\ verdict = "todo" /\ at > Len(Fns)
  /\ LET tb == {<<a, IF a \in DOMAIN X.obs.types THEN X.obs.types[a] ELSE "missing">> : a \in {n \in DOMAIN X.env : ~TypeOK(n)}}
         ok == bad = {} /\ tb = {}
     IN verdict' = (IF ok THEN "ok" ELSE "bad")
        /\ PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> ok, na |-> FALSE, diff |-> [sigs |-> bad, types |-> tb, err |-> X.obs.err]]))
  /\ UNCHANGED <<i, at, sig, bad>>

Next == Step \/ Close \/ Judge
Spec == Init /\ [][Next]_<<i, verdict, at, sig, bad>>
=============================================================================
