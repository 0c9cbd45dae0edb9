----------------------------- MODULE MCPreamble -----------------------------
EXTENDS Preamble
S(A) == UNION {[1..n -> A] : n \in 0..2}
Groups == [name : {"", "CFLAGS"}, traits : S({"linux"}), flags : {<<>>, <<"-Ia", "-Db">>}]
Init == \E l \in {<<>>, <<"L", "", "M">>}, d \in {<<>>, <<"D">>}, p \in {<<>>, <<"a", "b">>}, g \in S(Groups), s \in S({"stdlib.h", "x.h"}), q \in S({"q.h"}), st \in BOOLEAN, k \in Kinds :
          InitWith([license |-> l, description |-> d, pkgconfig |-> p, groups |-> g, sys |-> s, inc |-> q, stamp |-> st], k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Finished
=============================================================================
