------------------------------- MODULE MCRuns -------------------------------
(* All histories of three steps over two configurations in one directory. *)
EXTENDS Runs
Mem == {[arg |-> <<"c", "">>, files |-> {<<"d/a", "1">>, <<"d/b", "1">>}], [arg |-> <<"c", "n">>, files |-> {<<"d/a", "2">>}],
        [arg |-> <<"e", "">>, files |-> {<<"d/b", "3">>, <<"d/h", "3">>}], [arg |-> <<"e", "n">>, files |-> {}]}
Args == {m.arg : m \in Mem}
Steps == {[do |-> "run", args |-> s] : s \in UNION {[1..n -> Args] : n \in 1..2}} \cup
         {[do |-> "write", path |-> p, content |-> "u"] : p \in {"d/a", "d/b", "d/u"}} \cup {[do |-> "remove", path |-> p] : p \in {"d/a", "d/u"}}
Init == \E s \in UNION {[1..n -> Steps] : n \in 0..3} : InitWith([memo |-> Mem, steps |-> s])
Spec == Init /\ [][Next]_vars
=============================================================================
