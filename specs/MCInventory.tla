---------------------------- MODULE MCInventory ----------------------------
(* The inventory machine over every header of up to MaxLen declarations drawn    *)
(* from a set of templates and every combination of accept / ignore rules.       *)
EXTENDS Inventory
CONSTANT MaxLen

L(w) == [k |-> "seq", ns |-> [j \in 1..Len(w) |-> [k |-> "lit", c |-> Ch(w, j)]]]
R(act, w) == [act |-> act, from |-> L(w), ci |-> FALSE, to |-> <<>>, tr |-> "", load |-> ""]
Title == [act |-> "", from |-> [k |-> "none"], ci |-> FALSE, to |-> <<>>, tr |-> "title", load |-> ""]

D(k, td, tag, id, ms, file) == [k |-> k, td |-> td, tag |-> tag, id |-> id, members |-> ms, names |-> <<>>,
                                static |-> FALSE, complete |-> TRUE, file |-> file, ret |-> ""]
Templates == <<
  D("macro", "za", "", 1, <<>>, "f"),
  D("enum", "", "zb", 2, <<[n |-> "za1", id |-> 21], [n |-> "zb1", id |-> 22]>>, "f"),
  D("enum", "zc", "", 3, <<[n |-> "zc1", id |-> 31]>>, "f"),
  D("st", "zb2", "za2", 4, <<>>, "f"),
  D("st", "", "zb3", 5, <<>>, "g"),
  D("un", "za4", "", 6, <<>>, "f"),
  D("ty", "Zb", "", 7, <<>>, "f"),
  D("fn", "zaf", "", 8, <<>>, "f"),
  D("fn", "zbf", "", 9, <<>>, "g"),
  D("sv", "zv", "", 10, <<>>, "f"),
  D("cvar", "zac", "", 11, <<>>, "f"),
  D("st", "za2", "za2", 4, <<>>, "f"),
  D("st", "", "za2", 4, <<>>, "g") >>

Globals == {<<R("accept", "z")>>, <<R("accept", "b"), R("ignore", "2")>>, <<R("ignore", "z")>>}
Specifics == {<<>>, <<R("accept", "a")>>, <<R("ignore", "b"), Title>>}
RuleSets == { [t \in {"global", "type", "function", "const", "public"} |->
                 CASE t = "global" -> g [] t = "type" -> s1 [] t = "function" -> s2 [] t = "const" -> s2 [] t = "public" -> s3] :
              g \in Globals, s1 \in Specifics, s2 \in Specifics, s3 \in Specifics }

Headers == { h \in UNION {[1..n -> 1..Len(Templates)] : n \in 0..MaxLen} :
               \A x, y \in DOMAIN h : x < y => (h[x] < h[y] \/ (h[x] = h[y] /\ Templates[h[x]].k = "fn")) }

Init == \E h \in Headers, r \in RuleSets, ig \in {{}, {"g"}} :
          InitWith([rules |-> r, decls |-> [j \in DOMAIN h |-> Templates[h[j]]], ignored |-> ig])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SourceOrderU == \A x, y \in 1..Len(out["main"]) : x < y => out["main"][x].id < out["main"][y].id
Terminates == <>Finished
=============================================================================
