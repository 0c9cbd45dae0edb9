------------------------------ MODULE MCSurface -----------------------------
(* All headers of up to three types of every kind, two of which may share their *)
(* Go name's spelling but for the case of the first letter.                     *)
EXTENDS Surface, FiniteSets

Mem == {<<>>, <<[name |-> "A", skip |-> FALSE], [name |-> "B", skip |-> TRUE]>>, <<[name |-> "Ref", skip |-> FALSE]>>}
T(n, k, c, r, p, m) == [name |-> n, go |-> n, cgo |-> n, kind |-> k, complete |-> c, raw |-> r, ptr |-> p, members |-> m]
Types(n) ==
  {T(n, "struct", TRUE, r, FALSE, m) : r \in BOOLEAN, m \in Mem} \cup {T(n, "struct", FALSE, FALSE, p, <<>>) : p \in BOOLEAN}
  \cup {T(n, "cb", TRUE, FALSE, p, <<>>) : p \in BOOLEAN} \cup {T(n, k, TRUE, FALSE, FALSE, <<>>) : k \in {"union", "other"}}

VARIABLES types, acc, at, api
vars == <<types, acc, at, api>>
Init == /\ acc \in BOOLEAN /\ at = 1 /\ api = {}
        /\ \E a \in Types("X"), b \in Types("Y"), c \in Types("XY") : types = <<a, b, c>>
Next == at <= 3 /\ at' = at + 1 /\ api' = SurfaceStep(types[at], acc, api) /\ UNCHANGED <<types, acc>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == {types[j] : j \in 1..(at - 1)}
(* Nobody's methods get mixed up: no two entries for the same name. *)
NoClash == \A e, f \in api : e.n = f.n /\ e.of = f.of => e = f
NoClashT == \A e, f \in api : e.n = f.n /\ (e.of = "*" \o f.of) => FALSE
(* What has a C object can be passed to C, constructed from one and, if it is a struct, freed. *)
Usable == \A t \in Done :
  /\ (t.kind \in {"struct", "cb"} /\ ~(StaysC(t) /\ t.ptr)) => (Passable(t, api) /\ Readable(t, api))
  /\ (t.kind = "struct" /\ ~t.ptr) => Freeable(t, api)
(* Only what stays C has accessors, only wrappers copy. *)
Copies == \A t \in Done : (\E e \in api : e.of = "*" \o t.go /\ e.n = "Deref") <=> Wraps(t)
Reaches == \A t \in Done : \A e \in api : (e.of = "*" \o t.go /\ e.outs = <<"?">>) => (acc /\ StaysC(t))
(* Every C function declared is defined and leads to a Go function. *)
Whole == \A e \in api : e.of = "declared" => (\E f \in api : f.of = "defined" /\ f.n = e.n) /\ \E f \in api : f.of = "export" /\ f.n = Low(SubSeq(e.n, 1, Len(e.n) - 2)) \o "#"
Ends == <>(at = 4)
=============================================================================
