------------------------------ MODULE Names ------------------------------
(* What the Rules section of the configuration means: which C names are        *)
(* accepted, and what they are called in Go.                                    *)
(*                                                                              *)
(* rules: a function from targets to sequences of rules, as written in the      *)
(* file; a rule is [act, from, ci, to, tr, load] with act, tr, load "" when not  *)
(* given, from = [k |-> "none"] when not given, to = <<>> when not given.        *)
EXTENDS Rx

AnyRx == [k |-> "star", n |-> [k |-> "any"]]
Whole == <<[k |-> "g", g |-> 0]>>
Group1 == <<[k |-> "g", g |-> 1]>>

(* Built-in rules that can be loaded by name. *)
Builtin(load) ==
  CASE load = "snakecase" ->
         [act |-> "replace", ci |-> FALSE, tr |-> "title", to |-> Group1,
          from |-> [k |-> "seq", ns |-> <<[k |-> "lit", c |-> "_"],
                    [k |-> "grp", g |-> 1, n |-> [k |-> "plus", n |-> [k |-> "cls", neg |-> TRUE, cs |-> "_"]]]>>]]
    [] load \in {"doc.file", "doc.google"} ->
         [act |-> "doc", ci |-> FALSE, tr |-> "", to |-> <<>>, from |-> [k |-> "none"]]

(* The rule after loading the built-in it names and after filling in defaults:  *)
(* a rule without an action transforms whatever it matches.                     *)
Effective(r) ==
  LET l == IF r.load = "" THEN r
           ELSE LET b == Builtin(r.load)
                IN [r EXCEPT !.act = IF r.act = "" THEN b.act ELSE r.act,
                             !.from = IF r.from.k = "none" THEN b.from ELSE r.from,
                             !.ci = IF r.from.k = "none" THEN b.ci ELSE r.ci,
                             !.to = IF r.to = <<>> THEN b.to ELSE r.to,
                             !.tr = IF r.tr = "" THEN b.tr ELSE r.tr]
  IN IF l.act = ""
     THEN [l EXCEPT !.act = "replace", !.to = Whole, !.from = IF l.from.k = "none" THEN AnyRx ELSE l.from]
     ELSE IF l.from.k = "none" THEN [l EXCEPT !.from = [k |-> "grp", g |-> 1, n |-> AnyRx]] ELSE l

RulesOf(rules, target) == IF target \in DOMAIN rules THEN rules[target] ELSE <<>>

(* The effective rules of one action for one target, in the order written. *)
RECURSIVE ActionFrom(_, _, _)
ActionFrom(rs, act, i) ==
  IF i > Len(rs) THEN <<>>
  ELSE LET e == Effective(rs[i]) IN (IF e.act = act THEN <<e>> ELSE <<>>) \o ActionFrom(rs, act, i + 1)
ActionRules(rules, target, act) == ActionFrom(RulesOf(rules, target), act, 1)

SomeMatch(rs, name) == \E i \in 1..Len(rs) : Matches(rs[i].from, rs[i].ci, name)

(* Ignore beats accept within a target; a target that says nothing about the    *)
(* name defers to the global rules; what nobody accepts is left out.            *)
RECURSIVE Accepted(_, _, _)
Accepted(rules, target, name) ==
  IF SomeMatch(ActionRules(rules, target, "ignore"), name) THEN FALSE
  ELSE IF SomeMatch(ActionRules(rules, target, "accept"), name) THEN TRUE
  ELSE IF target = "global" THEN FALSE
  ELSE Accepted(rules, "global", name)

Shape(tr, s) ==
  CASE tr = "lower" -> Lower(s)
    [] tr = "upper" -> Upper(s)
    [] tr \in {"title", "export"} -> Capital(s)
    [] tr = "unexport" -> Uncapital(s)
    [] OTHER -> s

(* One replacing rule: every match is replaced by the expanded template, shaped *)
(* by the transform; what lies between the matches stays.                       *)
RECURSIVE Rebuild(_, _, _, _, _)
Rebuild(r, s, ms, i, p) ==
  IF i > Len(ms) THEN SubSeq(s, p, Len(s))
  ELSE SubSeq(s, p, ms[i].a - 1) \o Shape(r.tr, Expand(r.to, s, ms[i])) \o Rebuild(r, s, ms, i + 1, ms[i].b)
ApplyRule(r, s) == Rebuild(r, s, FindAll(r.from, r.ci, s), 1, 1)

RECURSIVE ApplyFrom(_, _, _)
ApplyFrom(rs, s, i) == IF i > Len(rs) THEN s ELSE ApplyFrom(rs, ApplyRule(rs[i], s), i + 1)
(* nothing can be made of an empty name *)
ApplyTarget(rules, target, s) ==
  IF s = "" THEN s ELSE ApplyFrom(ActionRules(rules, target, "replace"), s, 1)

Keywords == {"break", "default", "func", "interface", "select", "case", "defer", "map", "var", "chan",
  "else", "goto", "package", "switch", "const", "fallthrough", "if", "range", "type", "continue", "for",
  "import", "return", "go", "struct"}

(* A Go keyword cannot be a name. *)
Safe(name) == IF name = "type" THEN "kind" ELSE IF name \in Keywords THEN "_" \o name ELSE name

(* global rules, then those of the target, then post-global, then visibility.  *)
Transform(rules, target, name, vis) ==
  LET a == ApplyTarget(rules, "global", name)
      b == ApplyFrom(ActionRules(rules, target, "replace"), a, 1)
      c == ApplyTarget(rules, "post-global", b)
      d == IF vis = "" THEN c ELSE ApplyTarget(rules, vis, c)
  IN IF name = "" THEN "" ELSE Safe(d)

(* Names of C entities that are Go keywords arrive with an underscore. *)
CName(name) == IF name \in Keywords THEN "_" \o name ELSE name
=============================================================================
