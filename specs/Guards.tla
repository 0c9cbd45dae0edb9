------------------------------- MODULE Guards -------------------------------
(* Calls of functions that the Validations section puts a check in front of.     *)
(*   x.fns    functions: [c |-> C name, kind]                                      *)
(*   x.vals   validations in the order written: [fn, from, ci, ret, shown];        *)
(*            `shown` is what the value of the expression ret is logged as         *)
(*   x.calls  what the user does: [f |-> function, n |-> argument,                  *)
(*            bad |-> the set of <<validation function, C name>> that are refused]  *)
(* One call is: ask the validation function of the first entry that matches the   *)
(* C name, if there is one; refused, return what the entry says without having     *)
(* touched the arguments; otherwise C runs as it would without any check.          *)
EXTENDS Rx, FiniteSets

VARIABLES x, k, pc, log
vars == <<x, k, pc, log>>

MatchesName(v, name) == v.from.k = "none" \/ Matches(v.from, v.ci, name)
GuardsOf(name) == {j \in 1..Len(x.vals) : MatchesName(x.vals[j], name)}
Guarded(name) == GuardsOf(name) # {}
Guard(name) == x.vals[CHOOSE j \in GuardsOf(name) : \A h \in GuardsOf(name) : j <= h]

Call == x.calls[k]
Fn == x.fns[Call.f]
Result == CASE Fn.kind = "i" -> NatStr(2 * Call.n + 1) [] Fn.kind = "s" -> "r" \o NatStr(Call.n) [] OTHER -> ""
Ev(e, name, v) == [e |-> e, name |-> name, v |-> v]

InitWith(y) == x = y /\ k = 1 /\ pc = "called" /\ log = <<>>
Finished == k > Len(x.calls)

Ask == /\ ~Finished /\ pc = "called" /\ Guarded(Fn.c)
       /\ log' = Append(log, Ev("ask " \o Guard(Fn.c).fn, Fn.c, ""))
       /\ pc' = IF <<Guard(Fn.c).fn, Fn.c>> \in Call.bad THEN "refused" ELSE "allowed"
       /\ UNCHANGED <<x, k>>
Refused == /\ pc = "refused"
           /\ log' = Append(log, Ev("return untouched", Fn.c, Guard(Fn.c).shown))
           /\ pc' = "called" /\ k' = k + 1 /\ UNCHANGED x
RunC == /\ ~Finished
        /\ IF pc = "called" THEN ~Guarded(Fn.c) ELSE pc = "allowed"
        /\ log' = Append(log, Ev("C", Fn.c, NatStr(Call.n)))
        /\ pc' = "ran" /\ UNCHANGED <<x, k>>
Return == /\ pc = "ran"
          /\ log' = Append(log, Ev("return", Fn.c, Result))
          /\ pc' = "called" /\ k' = k + 1 /\ UNCHANGED x
Next == Ask \/ Refused \/ RunC \/ Return

(* ---------------------------------------------------------------- properties *)
Of(e, name) == {j \in 1..Len(log) : log[j].e = e /\ log[j].name = name}
RefusedBy(name) == {j \in 1..(k - 1) : x.fns[x.calls[j].f].c = name /\ Guarded(name) /\ <<Guard(name).fn, name>> \in x.calls[j].bad}
CallsOf(name) == {j \in 1..(k - 1) : x.fns[x.calls[j].f].c = name}
(* C runs once per call that is not refused, whichever entry or none it has. *)
RunsUnlessRefused == pc = "called" => \A f \in 1..Len(x.fns) :
  Cardinality(Of("C", x.fns[f].c)) = Cardinality(CallsOf(x.fns[f].c)) - Cardinality(RefusedBy(x.fns[f].c))
(* The function of the first entry is asked, once per call, and nobody else is. *)
AskedOnce == pc = "called" => \A f \in 1..Len(x.fns), v \in 1..Len(x.vals) :
  LET n == x.fns[f].c
  IN Cardinality(Of("ask " \o x.vals[v].fn, n)) = IF Guarded(n) /\ Guard(n).fn = x.vals[v].fn THEN Cardinality(CallsOf(n)) ELSE 0
(* Being asked comes right before C. *)
AskFirst == \A j \in 1..Len(log) : (log[j].e = "C" /\ Guarded(log[j].name)) => j > 1 /\ log[j - 1].e = "ask " \o Guard(log[j].name).fn
=============================================================================
