----------------------------- MODULE MCPipeline -----------------------------
(* Every run of up to two arguments over a set of good and bad configurations.      *)
EXTENDS Pipeline
G(pkg, feats, doc) == [yaml |-> TRUE, gen |-> TRUE, pkg |-> pkg, src |-> "ok", rx |-> "ok", out |-> "ok", feats |-> feats, doc |-> doc]
Cfgs == [ a |-> G("a", <<"macro", "fnarg">>, TRUE), b |-> G("p/b", <<"struct", "callback">>, FALSE),
          a2 |-> G("a", <<>>, FALSE),
          badyaml |-> [G("q", <<>>, FALSE) EXCEPT !.yaml = FALSE], badsrc |-> [G("q", <<>>, FALSE) EXCEPT !.src = "missing"],
          badrx |-> [G("q", <<>>, FALSE) EXCEPT !.rx = "bad"], nopkg |-> G("", <<>>, FALSE),
          badout |-> [G("q", <<"macro">>, FALSE) EXCEPT !.out = "bad"],
          badfile |-> [G("r", <<"macro", "callback">>, TRUE) EXCEPT !.out = "cgo_helpers.h"],
          badnone |-> [G("s", <<"macro">>, FALSE) EXCEPT !.out = "types.go"] ]
File(c) == [kind |-> "file", path |-> c, cfg |-> c, present |-> [none |-> ""]]
Dir(p) == [kind |-> "dir", path |-> "x/d", cfg |-> "", present |-> p]
Args == {File(c) : c \in DOMAIN Cfgs} \cup {[kind |-> "missing", path |-> "m", cfg |-> "", present |-> [none |-> ""]]} \cup
        { Dir([f \in s |-> IF f = "c-for-go.yml" THEN "a" ELSE IF f = "c-for-go.yaml" THEN "" ELSE IF f = "d.yml" THEN "badyaml" ELSE "b"]) :
            s \in SUBSET {"c-for-go.yaml", "c-for-go.yml", "d.yaml", "d.yml"} }
Init == \E as \in UNION {[1..n -> Args] : n \in 0..2}, nc \in BOOLEAN :
          InitWith([args |-> as, cfgs |-> Cfgs, nocgo |-> nc, out |-> "out/"])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>Finished
=============================================================================
