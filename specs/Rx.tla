------------------------------- MODULE Rx -------------------------------
(* Regular expressions of the configuration file, with the leftmost-first     *)
(* meaning that users of Go's regexp package rely on: alternatives in order,   *)
(* greedy repetition, numbered groups.  An expression is a tree of records:    *)
(*   [k |-> "lit", c]  [k |-> "any"]  [k |-> "cls", neg, cs]                    *)
(*   [k |-> "star"|"plus"|"opt", n]  [k |-> "seq"|"alt", ns]                     *)
(*   [k |-> "grp", g, n]  [k |-> "bol"]  [k |-> "eol"]                           *)
(* and is used together with a case-insensitivity flag.                        *)
EXTENDS Strings

NoCaps == <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>   \* groups 1..3: [from, to) 1-based; <<0,0>> is unset

Same(a, b, ci) == a = b \/ (ci /\ LoCh(a) = LoCh(b))
InCls(c, n, ci) == (\E i \in 1..Len(n.cs) : Same(Ch(n.cs, i), c, ci)) # n.neg

(* All ways of matching node n at position p, in order of preference. *)
RECURSIVE Ends(_, _, _, _, _)
RECURSIVE SeqEnds(_, _, _, _, _, _)
RECURSIVE AltEnds(_, _, _, _, _, _)
RECURSIVE Over(_, _, _, _, _, _, _)
RECURSIVE StarOver(_, _, _, _, _, _)

Ends(n, s, p, caps, ci) ==
  CASE n.k = "lit" -> IF p <= Len(s) /\ Same(n.c, Ch(s, p), ci) THEN <<[p |-> p + 1, c |-> caps]>> ELSE <<>>
    [] n.k = "any" -> IF p <= Len(s) THEN <<[p |-> p + 1, c |-> caps]>> ELSE <<>>
    [] n.k = "cls" -> IF p <= Len(s) /\ InCls(Ch(s, p), n, ci) THEN <<[p |-> p + 1, c |-> caps]>> ELSE <<>>
    [] n.k = "bol" -> IF p = 1 THEN <<[p |-> p, c |-> caps]>> ELSE <<>>
    [] n.k = "eol" -> IF p = Len(s) + 1 THEN <<[p |-> p, c |-> caps]>> ELSE <<>>
    [] n.k = "seq" -> SeqEnds(n.ns, 1, s, p, caps, ci)
    [] n.k = "alt" -> AltEnds(n.ns, 1, s, p, caps, ci)
    [] n.k = "grp" -> LET es == Ends(n.n, s, p, caps, ci)
                      IN [i \in 1..Len(es) |-> [p |-> es[i].p, c |-> [es[i].c EXCEPT ![n.g] = <<p, es[i].p>>]]]
    [] n.k = "opt" -> Ends(n.n, s, p, caps, ci) \o <<[p |-> p, c |-> caps]>>
    [] n.k = "star" -> StarOver(n, Ends(n.n, s, p, caps, ci), 1, s, p, ci) \o <<[p |-> p, c |-> caps]>>
    [] n.k = "plus" -> LET star == [k |-> "star", n |-> n.n]
                           es == Ends(n.n, s, p, caps, ci)
                       IN Over(<<star>>, 1, es, 1, s, p, ci)

SeqEnds(ns, i, s, p, caps, ci) ==
  IF i > Len(ns) THEN <<[p |-> p, c |-> caps]>>
  ELSE Over(ns, i + 1, Ends(ns[i], s, p, caps, ci), 1, s, p, ci)

AltEnds(ns, i, s, p, caps, ci) ==
  IF i > Len(ns) THEN <<>> ELSE Ends(ns[i], s, p, caps, ci) \o AltEnds(ns, i + 1, s, p, caps, ci)

(* continue with ns[i..] after each of the ends es[j..] *)
Over(ns, i, es, j, s, p, ci) ==
  IF j > Len(es) THEN <<>>
  ELSE SeqEnds(ns, i, s, es[j].p, es[j].c, ci) \o Over(ns, i, es, j + 1, s, p, ci)

(* one more round of the loop after each end that made progress *)
StarOver(n, es, j, s, p, ci) ==
  IF j > Len(es) THEN <<>>
  ELSE (IF es[j].p > p THEN Ends(n, s, es[j].p, es[j].c, ci) ELSE <<>>) \o StarOver(n, es, j + 1, s, p, ci)

NoMatch == [found |-> FALSE, a |-> 0, b |-> 0, c |-> NoCaps]

(* The leftmost match starting at or after position p. *)
RECURSIVE FindFrom(_, _, _, _)
FindFrom(n, ci, s, p) ==
  IF p > Len(s) + 1 THEN NoMatch
  ELSE LET es == Ends(n, s, p, NoCaps, ci)
       IN IF es # <<>> THEN [found |-> TRUE, a |-> p, b |-> es[1].p, c |-> es[1].c]
          ELSE FindFrom(n, ci, s, p + 1)

Matches(n, ci, s) == FindFrom(n, ci, s, 1).found

(* All successive non-overlapping matches; an empty match right after the      *)
(* previous match does not count.                                              *)
RECURSIVE AllFrom(_, _, _, _, _)
AllFrom(n, ci, s, p, prev) ==
  IF p > Len(s) + 1 THEN <<>>
  ELSE LET m == FindFrom(n, ci, s, p)
       IN IF ~m.found THEN <<>>
          ELSE LET keep == ~(m.a = m.b /\ m.a = prev)
                   nextp == IF m.b > p THEN m.b ELSE p + 1
               IN (IF keep THEN <<m>> ELSE <<>>) \o AllFrom(n, ci, s, nextp, m.b)
FindAll(n, ci, s) == AllFrom(n, ci, s, 1, 0)

(* Replacement templates: a sequence of [k |-> "s", v] and [k |-> "g", g],      *)
(* where group 0 is the whole match.                                           *)
RECURSIVE ExpandFrom(_, _, _, _)
ExpandFrom(to, s, m, i) ==
  IF i > Len(to) THEN ""
  ELSE (IF to[i].k = "s" THEN to[i].v
        ELSE IF to[i].g = 0 THEN SubSeq(s, m.a, m.b - 1)
        ELSE LET r == m.c[to[i].g] IN IF r[1] = 0 THEN "" ELSE SubSeq(s, r[1], r[2] - 1))
       \o ExpandFrom(to, s, m, i + 1)
Expand(to, s, m) == ExpandFrom(to, s, m, 1)
=============================================================================
