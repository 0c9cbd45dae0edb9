------------------------------ MODULE MCLookup ------------------------------
(* Every placement of a source and of two included files over a few directories,     *)
(* with every combination of search paths and of flags.                              *)
EXTENDS Lookup
Dirs == {<<>>, <<"i">>, <<"c">>, <<"h">>}
Def(n) == [k |-> "def", id |-> n, quote |-> FALSE, name |-> <<>>, cond |-> "", v |-> ""]
Inc(q, n) == [k |-> "inc", id |-> 0, quote |-> q, name |-> n, cond |-> "", v |-> ""]
If(c, n, v, j) == [k |-> "if", id |-> j, quote |-> FALSE, name |-> n, cond |-> c, v |-> v]
FileAt(d, n, ls) == [path |-> d \o <<n>>, lines |-> ls]
Num(d) == CASE d = <<>> -> 1 [] d = <<"i">> -> 2 [] d = <<"c">> -> 3 [] d = <<"h">> -> 4
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o ToSeq(S \ {e})
Ds == {<<>>, <<[n |-> "U", t |-> "int", v |-> "1"]>>, <<[n |-> "U", t |-> "empty", v |-> ""]>>}
Init ==
  \E as, bs, cs \in SUBSET Dirs, incs \in {<<>>, <<<<"i">>>>, <<<<"h">>, <<"i">>>>}, cd, ci, hok \in BOOLEAN, ds \in Ds :
    /\ Cardinality(as) <= 2 /\ Cardinality(bs) <= 2 /\ Cardinality(cs) <= 1
    /\ InitWith([files |-> ToSeq({FileAt(d, "a", <<Def(Num(d)), Inc(TRUE, <<"b">>), If("if", "U", "1", 90)>>) : d \in as} \cup
                                  {FileAt(d, "b", <<Def(10 + Num(d)), Inc(FALSE, <<"s">>), If("ifdef", "U", "", 91)>>) : d \in bs} \cup
                                  {FileAt(d, "s", <<Def(20 + Num(d)), Inc(TRUE, <<"..", "a">>)>>) : d \in cs}),
                 srcs |-> <<<<"a">>>>, inc |-> incs, sys |-> <<<<"i">>>>, opts |-> <<>>, pkgs |-> <<>>, cfgdir |-> <<"c">>,
                 defs |-> ds, host |-> [ok |-> hok, defs |-> <<[n |-> "U", t |-> "int", v |-> "2"]>>, quote |-> <<<<"h">>>>, sys |-> <<<<"h">>>>],
                 ccdefs |-> cd, ccincl |-> ci])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Finished
=============================================================================
