------------------------------ MODULE MCHelpers ------------------------------
(* All graphs of needs over N helpers without cycles, with up to two needs each,  *)
(* all sequences of up to two submissions, all interleavings.                       *)
EXTENDS Helpers
CONSTANT N, M
VARIABLE subs
SeqsTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Fine(g) == \A h \in 1..N : Distinct(g[h]) /\ (\A j \in 1..Len(g[h]) : g[h][j] > h)
Graphs == {g \in [1..N -> SeqsTo(1..N, 2)] : Fine(g)}
MInit == \E g \in Graphs, s \in SeqsTo(1..N, M) : subs = s /\ InitWith(g, s)
MNext == Next /\ UNCHANGED subs
Spec == MInit /\ [][MNext]_<<vars, subs>> /\ WF_vars(MNext)
(* what is written, and in which order, does not depend on the schedule *)
SameOrder == wpc = "gone" => written = Order(needs, subs)
Prefix == Len(written) <= Len(Order(needs, subs)) /\ SubSeq(Order(needs, subs), 1, Len(written)) = written
NoDeadlock == ENABLED MNext \/ wpc = "gone"
Ends == <>(wpc = "gone")
=============================================================================
