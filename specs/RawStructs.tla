----------------------------- MODULE RawStructs -----------------------------
(* Structs that stay C types (memory tip raw, or opaque): a Go pointer to one   *)
(* is the address of the C object. The state S:                                 *)
(*   mem   objects by number: [t type, kind static / heap / go, live,           *)
(*         f  value of every leaf by its path]                                  *)
(*   vars  what Go variables hold: a place [t, o, p], o = 0 for nil             *)
(*   holds pointers that Go got from accessors of plain members                 *)
(* A leaf's value: [o, p, v], a place for pointers, a token v for the rest.     *)
(* Types T: sequence of sequences of members                                    *)
(*   k  v plain, a array, h plain of a type that is not generated,              *)
(*      p pointer to struct t, r struct t, w wrapped struct t,                  *)
(*      ra array of n structs t, m number of tokens besides 0                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nil == [o |-> 0, p |-> <<>>, v |-> 0]
Tok(n) == [o |-> 0, p |-> <<>>, v |-> n]
At(o, p) == [o |-> o, p |-> p, v |-> 0]

(* ------------------------------------------------------------------- layout *)
RECURSIVE LeafSeq(_, _), Members(_, _, _), Elements(_, _, _)
Under(q, s) == [j \in DOMAIN s |-> [s[j] EXCEPT !.path = q \o @]]
Elements(T, m, n) == IF n >= m.n THEN <<>> ELSE Under(<<n>>, LeafSeq(T, m.t)) \o Elements(T, m, n + 1)
Members(T, t, j) ==
  IF j > Len(T[t]) THEN <<>>
  ELSE LET m == T[t][j]
           ls == CASE m.k \in {"r", "w"} -> LeafSeq(T, m.t)
                   [] m.k = "ra" -> Elements(T, m, 0)
                   [] OTHER -> <<[path |-> <<>>, k |-> m.k, m |-> m.m, t |-> m.t]>>
       IN Under(<<j>>, ls) \o Members(T, t, j + 1)
LeafSeq(T, t) == Members(T, t, 1)
Paths(T, t) == LET s == LeafSeq(T, t) IN {s[j].path : j \in DOMAIN s}

(* where structs of type t are in one of type u *)
RECURSIVE Places(_, _, _)
Places(T, u, t) ==
  (IF u = t THEN {<<>>} ELSE {}) \cup
  UNION { LET m == T[u][j] IN
          CASE m.k = "r" -> {<<j>> \o q : q \in Places(T, m.t, t)}
            [] m.k = "ra" -> {<<j, n>> \o q : n \in 0..m.n - 1, q \in Places(T, m.t, t)}
            [] OTHER -> {} : j \in DOMAIN T[u] }

(* ------------------------------------------------------------------- memory *)
Zeros(T, t) == [q \in Paths(T, t) |-> Nil]
Get(S, o, p) == S.mem[o].f[p]
Part(T, S, o, p, t) == [q \in Paths(T, t) |-> S.mem[o].f[p \o q]]
Put(S, o, p, x) == [S EXCEPT !.mem[o].f[p] = x]
PutPart(S, o, p, g) ==
  [S EXCEPT !.mem[o].f = [q \in DOMAIN @ |-> IF Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p THEN g[SubSeq(q, Len(p) + 1, Len(q))] ELSE @[q]]]
Alloc(S, t, kind, g) == [S EXCEPT !.mem = Append(@, [t |-> t, kind |-> kind, live |-> TRUE, f |-> g])]
Last(S) == Len(S.mem)
Bind(S, t, o, p) == [S EXCEPT !.vars = Append(@, [t |-> t, o |-> o, p |-> p])]

(* a poke: [path, x] *)
RECURSIVE Pokes(_, _, _, _)
Pokes(S, o, p, ws) == IF ws = <<>> THEN S ELSE Pokes(Put(S, o, p \o Head(ws).path, Head(ws).x), o, p, Tail(ws))
RECURSIVE PokesIn(_, _)
PokesIn(g, ws) == IF ws = <<>> THEN g ELSE PokesIn([g EXCEPT ![Head(ws).path] = Head(ws).x], Tail(ws))

(* --------------------------------------------------------------- operations *)
(* Go makes an object: New<T>, or PassRef of nil                               *)
New(T, S, t) == Bind(Alloc(S, t, "heap", Zeros(T, t)), t, Last(S) + 1, <<>>)
(* a pointer comes from C: as a result, through New<T>Ref, an out parameter or  *)
(* a member                                                                    *)
Back(S, t, x) == Bind(S, t, x.o, x.p)
(* the accessor of a struct member: the place inside the object                *)
Sub(T, S, v, j) == LET w == S.vars[v] IN Bind(S, T[w.t][j].t, w.o, w.p \o <<j>>)
(* the accessor of a pointer member, and what it points to                     *)
Follow(T, S, v, j) == LET w == S.vars[v]  x == Get(S, w.o, w.p \o <<j>>) IN Back(S, T[w.t][j].t, x)
Store(S, v, j, x) == LET w == S.vars[v] IN Put(S, w.o, w.p \o <<j>>, x)
Hold(T, S, v, j) == LET w == S.vars[v] IN [S EXCEPT !.holds = Append(@, [t |-> w.t, o |-> w.o, p |-> w.p \o <<j>>])]
(* C is passed the pointer and changes the object                              *)
Call(S, v, ws) == LET w == S.vars[v] IN IF w.o = 0 THEN S ELSE Pokes(S, w.o, w.p, ws)
(* C is passed a copy, changes and returns it                                  *)
CallV(T, S, v, ws) ==
  LET w == S.vars[v]
  IN Bind(Alloc(S, w.t, "go", PokesIn(Part(T, S, w.o, w.p, w.t), ws)), w.t, Last(S) + 1, <<>>)
(* a Go slice with copies of what the variables point to; C is passed its memory *)
RECURSIVE Slice(_, _, _)
Slice(T, S, vs) ==
  IF vs = <<>> THEN S
  ELSE LET w == S.vars[Head(vs)]
       IN Slice(T, Bind(Alloc(S, w.t, "go", Part(T, S, w.o, w.p, w.t)), w.t, Last(S) + 1, <<>>), Tail(vs))
Assign(T, S, v, u) == LET a == S.vars[v]  b == S.vars[u] IN PutPart(S, a.o, a.p, Part(T, S, b.o, b.p, b.t))
Free(S, v) == [S EXCEPT !.mem[S.vars[v].o].live = FALSE]

Fine(S, x) == IF x.o = 0 THEN TRUE ELSE S.mem[x.o].live
LiveVars(S) == {v \in DOMAIN S.vars : S.vars[v].o # 0 /\ S.mem[S.vars[v].o].live}
CMem(S, x) == IF x.o = 0 THEN TRUE ELSE S.mem[x.o].kind # "go"
HeapLive(S) == Cardinality({o \in DOMAIN S.mem : S.mem[o].kind = "heap" /\ S.mem[o].live})

(* --------------------------------------------------------------- what is seen *)
RECURSIVE Dots(_)
Dots(p) == IF p = <<>> THEN "" ELSE "." \o ToString(Head(p)) \o Dots(Tail(p))
Name(x) == IF x.o = 0 THEN "null" ELSE ToString(x.o) \o Dots(x.p)
Text(l, x) == IF l.k = "p" THEN Name(x) ELSE ToString(x.v)
Dump(T, t, g) == LET s == LeafSeq(T, t) IN [j \in DOMAIN s |-> Text(s[j], g[s[j].path])]
DumpAt(T, S, o, p, t) == Dump(T, t, Part(T, S, o, p, t))
=============================================================================
