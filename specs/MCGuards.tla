------------------------------ MODULE MCGuards ------------------------------
(* All sequences of up to 3 validations and 3 calls over three functions. *)
EXTENDS Guards
Lit(c) == [k |-> "lit", c |-> c]
Rxs == {[k |-> "none"], Lit("a"), [k |-> "seq", ns |-> <<[k |-> "bol"], Lit("b")>>], [k |-> "seq", ns |-> <<Lit("b"), [k |-> "eol"]>>]}
Entry(f, r, ci) == [fn |-> f, from |-> r, ci |-> ci, ret |-> "0", shown |-> f]
Entries == {Entry(f, r, ci) : f \in {"p", "q"}, r \in Rxs, ci \in BOOLEAN}
Fns == <<[c |-> "ab", kind |-> "i"], [c |-> "bA", kind |-> "v"], [c |-> "c", kind |-> "s"]>>
Calls == {[f |-> f, n |-> 1, bad |-> b] : f \in 1..3, b \in {{}, {<<"p", "ab">>, <<"p", "c">>}, {<<"q", "bA">>, <<"p", "bA">>, <<"q", "ab">>}}}
SeqsTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
Init == \E vs \in SeqsTo(Entries, 2), cs \in SeqsTo(Calls, 2) : InitWith([fns |-> Fns, vals |-> vs, calls |-> cs])
Spec == Init /\ [][Next]_vars
=============================================================================
