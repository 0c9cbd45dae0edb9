---------------------------- MODULE MCStructs ----------------------------
(* All sequences of a few operations on a few wrappers of two struct types.    *)
EXTENDS Structs
CONSTANTS Steps, Lay
F(k, t, l, n) == [k |-> k, t |-> t, l |-> l, n |-> n, m |-> 1]
Lays == << [types |-> << <<F("v", 0, 0, 0), F("str", 0, 0, 0)>>, <<F("sl", 0, 2, 0), F("len", 0, 0, 0), F("ref", 1, 0, 0), F("val", 1, 0, 0)>> >>],
           [types |-> << <<F("ss", 0, 0, 0), F("hid", 0, 0, 0)>>, <<F("vs", 1, 0, 0), F("ref", 2, 0, 0), F("va", 1, 0, 2)>> >>] >>
lay == Lays[Lay]
VARIABLES S, n, last
vars == <<S, n, last>>
(* the wrappers that a program has in its hands *)
Mine == {w \in DOMAIN S.go : w \in last.mine}
Op(R, op, w) == S' = R /\ n' = n + 1 /\ last' = [op |-> op, w |-> w, was |-> S, mine |-> last.mine]
New(t) == LET R == NewWr(lay, S, t) IN S' = R /\ n' = n + 1 /\ last' = [op |-> "new", w |-> 0, was |-> S, mine |-> last.mine \cup {Len(S.go) + 1}]
RECURSIVE Reach(_)
Reach(w) == {w} \cup UNION {LET g == S.go[w].f[m] IN (IF g.w = 0 THEN {} ELSE Reach(g.w)) \cup UNION {Reach(g.ws[e]) : e \in DOMAIN g.ws} : m \in DOMAIN S.go[w].f}
SetF(w, i) ==
  LET fd == lay.types[S.go[w].t][i]
      g == Gf(fd.k)
      To(R, x) == Op([R EXCEPT !.go[w].f[i] = x], "set", w)
  IN \/ fd.k \in {"v", "len"} /\ To(S, [g EXCEPT !.v = "1"])
     \/ fd.k = "str" /\ To(S, [g EXCEPT !.v = "x"])
     \/ fd.k = "sl" /\ To(Add(S, Block("go", "data", S.go[w].t, i, 0, <<Cs("1")>>)), [g EXCEPT !.b = Top(S) + 1, !.n = 1])
     \/ fd.k = "ss" /\ To(Add(S, Block("go", "ptrs", 0, 0, 0, <<>>)), [g EXCEPT !.b = Top(S) + 1, !.vs = <<"x">>, !.bs = <<0>>])
     \/ fd.k = "ref" /\ \E r \in Mine : S.go[r].t = fd.t /\ w \notin Reach(r) /\ To(S, [g EXCEPT !.w = r])
     \/ fd.k = "vs" /\ To(NewWr(lay, Add(S, Block("go", "ptrs", 0, 0, 0, <<>>)), fd.t), [g EXCEPT !.b = Top(S) + 1, !.ws = <<Len(S.go) + 1>>])
     \/ fd.k = "val" /\ Op([S EXCEPT !.go[g.w].f[1] = IF @.k = "v" THEN [@ EXCEPT !.v = "1"] ELSE @], "set", w)
Init == S = [go |-> <<>>, mem |-> <<>>] /\ n = 0 /\ last = [op |-> "", w |-> 0, was |-> S, mine |-> {}]
Next ==
  /\ n < Steps
  /\ \/ \E t \in {1, 2} : Cardinality(Mine) < 3 /\ New(t)
     \/ \E w \in Mine :
          \/ \E i \in DOMAIN S.go[w].f : lay.types[S.go[w].t][i].k # "val" /\ SetF(w, i)
          \/ IF SaneG(lay, S, w) THEN Op(Pass(lay, S, w), "pass", w) ELSE FALSE
          \/ IF S.go[w].ref = 0 THEN FALSE ELSE IF SaneC(lay, S, S.go[w].ref) THEN IF Enough(lay, S, w) THEN Op(Deref(lay, S, w), "deref", w) ELSE FALSE ELSE FALSE
          \/ S.go[w].ref # 0 /\ Op(Free(S, w), "free", w)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------- what must hold *)
Owned ==
  \A a \in DOMAIN S.go :
    /\ \A b \in S.go[a].own : S.mem[b].kind = "heap" /\ S.mem[b].live
    /\ \A c \in DOMAIN S.go : a # c => S.go[a].own \cap S.go[c].own = {}
NoLeak == \A b \in DOMAIN S.mem : (S.mem[b].kind = "heap" /\ S.mem[b].live) => \E a \in DOMAIN S.go : b \in S.go[a].own
(* What a C object says, in the words of Show. *)
RECURSIVE Says(_, _), SaysAll(_, _), Fields(_, _, _)
SaysAll(b, j) == IF j > Len(S.mem[b].cells) THEN "" ELSE (IF j > 1 THEN "," ELSE "") \o
  (LET c == S.mem[b].cells[j] IN IF c.k = "s" THEN c.v ELSE IF c.k = "in" THEN Says(c.b, 1) ELSE S.mem[c.b].cells[1].v) \o SaysAll(b, j + 1)
Says(b, d) == "{" \o Fields(b, 1, d) \o "}"
Fields(b, i, d) ==
  IF i > Len(S.mem[b].cells) THEN ""
  ELSE LET c == S.mem[b].cells[i]
           k == lay.types[S.mem[b].t][i].k
       IN (CASE k \in {"v", "len"} -> c.v \o ";" [] k = "hid" -> ""
             [] k = "val" -> Says(c.b, d) \o ";"
             [] k = "va" -> "[" \o SaysAll(c.b, 1) \o "];"
             [] k = "str" -> "'" \o (IF c.b = 0 THEN "" ELSE S.mem[c.b].cells[1].v) \o "';"
             [] k = "ref" -> IF c.b = 0 THEN "nil;" ELSE "&" \o Says(c.b, d) \o ";"
             [] OTHER -> IF c.b = 0 THEN "nil;" ELSE "[" \o SaysAll(c.b, 1) \o "];") \o Fields(b, i + 1, d)
(* What a Go wrapper says: of one that has a C object, the object speaks. *)
RECURSIVE Tells(_, _), TellsAll(_, _, _), GFields(_, _, _)
TellsAll(R, ws, j) == IF j > Len(ws) THEN "" ELSE (IF j > 1 THEN "," ELSE "") \o Tells(R, ws[j]) \o TellsAll(R, ws, j + 1)
Tells(R, w) == IF R.go[w].ref # 0 THEN Says(R.go[w].ref, 1) ELSE "{" \o GFields(R, w, 1) \o "}"
GFields(R, w, i) ==
  IF i > Len(R.go[w].f) THEN ""
  ELSE LET g == R.go[w].f[i]
       IN (CASE g.k \in {"v", "len"} -> g.v \o ";" [] g.k = "hid" -> ""
             [] g.k = "val" -> Tells(R, g.w) \o ";"
             [] g.k = "va" -> "[" \o TellsAll(R, g.ws, 1) \o "];"
             [] g.k = "str" -> "'" \o Text(R, g.b, g.v) \o "';"
             [] g.k = "ref" -> IF g.w = 0 THEN "nil;" ELSE "&" \o Tells(R, g.w) \o ";"
             [] g.k = "vs" -> IF g.b = 0 THEN "nil;" ELSE "[" \o TellsAll(R, g.ws, 1) \o "];"
             [] g.k = "ss" -> IF g.b = 0 THEN "nil;" ELSE "[" \o Commas(TextsOf(R, g), 1, Len(g.vs)) \o "];"
             [] OTHER -> IF g.b = 0 THEN "nil;" ELSE "[" \o Commas([j \in 1..g.n |-> R.mem[g.b].cells[j].v], 1, g.n) \o "];") \o GFields(R, w, i + 1)
(* C is given what Go has *)
Faithful == last.op = "pass" => Says(S.go[last.w].ref, 1) = Tells(last.was, last.w)
(* the C object stays the same until it is freed *)
Cached == (last.op = "pass" /\ last.was.go[last.w].ref # 0) => S = last.was
Kept == (last.op \in {"set", "deref", "new"}) => \A w \in DOMAIN last.was.go : S.go[w].ref = last.was.go[w].ref \/ last.op = "deref"
(* Go is given what C has (of a slice as much as its length says); C sees no difference *)
Whole(w) == \A i \in DOMAIN S.go[w].f : LET g == S.go[w].f[i] IN g.k = "sl" => g.b = 0 \/ g.n = Len(S.mem[g.b].cells)
Told == (last.op = "deref" /\ Whole(last.w)) => "{" \o GFields(S, last.w, 1) \o "}" = Says(S.go[last.w].ref, 1) /\ SubSeq(S.mem, 1, Len(last.was.mem)) = last.was.mem
(* what was allocated for a wrapper goes when it is freed, and nothing else; again is nothing *)
Freed == last.op = "free" =>
  /\ \A b \in DOMAIN S.mem : S.mem[b].live = (last.was.mem[b].live /\ b \notin last.was.go[last.w].own)
  /\ Free(S, last.w) = S
  /\ last.was.go[last.w].has => S.go[last.w].ref = 0
=============================================================================
