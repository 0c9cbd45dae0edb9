------------------------------ MODULE GenRaw ------------------------------
(* Programs over raw structs: each proposed operation comes with dice, the      *)
(* machine chooses with them among what can be done in its state, does it and   *)
(* says what C and Go must see.                                                 *)
EXTENDS RawStructs, SequencesExt, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, p, k, S
all == <<i, p, k, S>>
C == Cases[i]
T == C.types
Raws == {t \in DOMAIN T : C.raw[t]}
PickSet(s, d) == SetToSeq(s)[1 + (d % Cardinality(s))]
PickSeq(s, d) == s[1 + (d % Len(s))]

Nothing == [S |-> S, ev |-> [op |-> "none"]]
Res(R, ev) == [S |-> R, ev |-> ev]
StaticPlaces(t) == {At(o, q) : o \in {n \in DOMAIN S.mem : S.mem[n].kind = "static" /\ Places(T, S.mem[n].t, t) # {}}, q \in UNION {Places(T, u, t) : u \in Raws}}
Real(t) == {x \in StaticPlaces(t) : x.p \in Places(T, S.mem[x.o].t, t)}
Value(l, d) == IF l.k = "p" THEN PickSet({Nil} \cup Real(l.t), d) ELSE Tok(d % (l.m + 1))
Poke(t, d, e) == LET l == PickSeq(LeafSeq(T, t), d) IN [path |-> l.path, k |-> l.k, t |-> l.t, x |-> Value(l, e)]
PokesOf(t, d) == SubSeq(<<Poke(t, d[5], d[6]), Poke(t, d[7], d[8]), Poke(t, d[9], d[10])>>, 1, d[11] % 4)

Live == LiveVars(S)
Var(d) == PickSet(Live, d)
Mem(t, ks) == {j \in DOMAIN T[t] : T[t][j].k \in ks}
New_(d, nil) ==
  LET t == PickSet(Raws, d[1])
      R == New(T, S, t)
  IN Res(R, [op |-> IF nil THEN "newnil" ELSE "new", t |-> t, new |-> Len(R.vars), o |-> Last(R), log |-> (IF nil THEN <<"null">> ELSE <<>>) \o <<"heap", Name(At(Last(R), <<>>))>> \o Dump(T, t, Zeros(T, t))])
BackOp(d) ==
  LET t == PickSet(Raws, d[1])
      x == IF d[2] % 6 = 0 THEN Nil ELSE PickSet({Nil} \cup Real(t), d[3])
      how == PickSeq(<<"fn", "api", "out">>, d[4])
      R == Back(S, t, x)
  IN Res(R, [op |-> "back", how |-> how, t |-> t, x |-> x, new |-> Len(R.vars), log |-> (IF how = "api" THEN <<>> ELSE <<"called">>) \o <<Name(x)>>])
SubOp(d) ==
  LET v == Var(d[1])
      ms == Mem(S.vars[v].t, {"r"})
      j == PickSet(ms, d[2])
      R == Sub(T, S, v, j)
  IN IF ms = {} THEN Nothing ELSE Res(R, [op |-> "sub", v |-> v, t |-> T[S.vars[v].t][j].t, j |-> j, new |-> Len(R.vars), log |-> <<Name(R.vars[Len(R.vars)])>>])
FollowOp(d) ==
  LET v == Var(d[1])
      w == S.vars[v]
      ms == {j \in Mem(w.t, {"p"}) : Fine(S, Get(S, w.o, w.p \o <<j>>))}
      j == PickSet(ms, d[2])
      R == Follow(T, S, v, j)
  IN IF ms = {} THEN Nothing ELSE Res(R, [op |-> "follow", v |-> v, t |-> T[w.t][j].t, j |-> j, new |-> Len(R.vars), log |-> <<Name(R.vars[Len(R.vars)])>>])
SetOp(d) ==
  LET v == Var(d[1])
      ms == Mem(S.vars[v].t, {"v"})
      j == PickSet(ms, d[2])
      x == Tok(d[3] % (T[S.vars[v].t][j].m + 1))
  IN IF ms = {} THEN Nothing ELSE Res(Store(S, v, j, x), [op |-> "set", v |-> v, j |-> j, x |-> x, log |-> <<>>])
LinkOp(d) ==
  LET v == Var(d[1])
      ms == Mem(S.vars[v].t, {"p"})
      j == PickSet(ms, d[2])
      us == {u \in Live : S.vars[u].t = T[S.vars[v].t][j].t /\ CMem(S, S.vars[u])}
      u == IF us = {} \/ d[3] % 5 = 0 THEN 0 ELSE PickSet(us, d[4])
  IN IF ms = {} THEN Nothing
     ELSE Res(Store(S, v, j, IF u = 0 THEN Nil ELSE At(S.vars[u].o, S.vars[u].p)), [op |-> "link", v |-> v, j |-> j, t |-> T[S.vars[v].t][j].t, u |-> u, log |-> <<>>])
ReadOp(d) ==
  LET v == Var(d[1])
      w == S.vars[v]
      ms == Mem(w.t, {"v", "a", "w", "ra", "p"})
      j == PickSet(ms, d[2])
      m == T[w.t][j]
      q == w.p \o <<j>>
      n == d[3] % m.n
      log == CASE m.k \in {"v", "a"} -> <<ToString(Get(S, w.o, q).v)>>
               [] m.k = "p" -> <<Name(Get(S, w.o, q))>>
               [] m.k = "w" -> <<Name(At(w.o, q))>> \o DumpAt(T, S, w.o, q, m.t)
               [] OTHER -> DumpAt(T, S, w.o, q \o <<n>>, m.t)
  IN IF ms = {} THEN Nothing ELSE Res(S, [op |-> "read", v |-> v, j |-> j, k |-> m.k, t |-> m.t, n |-> IF m.k = "ra" THEN n ELSE 0, log |-> log])
HoldOp(d) ==
  LET v == Var(d[1])
      ms == Mem(S.vars[v].t, {"v"})
      j == PickSet(ms, d[2])
  IN IF ms = {} THEN Nothing ELSE Res(Hold(T, S, v, j), [op |-> "hold", v |-> v, j |-> j, new |-> Len(S.holds) + 1, log |-> <<>>])
Held == {h \in DOMAIN S.holds : S.mem[S.holds[h].o].live}
HMem(h) == LET q == S.holds[h].p IN T[S.holds[h].t][q[Len(q)]]
PeekOp(d) == IF Held = {} THEN Nothing
  ELSE LET h == PickSet(Held, d[1])  q == S.holds[h].p
       IN Res(S, [op |-> "peek", h |-> h, t |-> S.holds[h].t, j |-> q[Len(q)], log |-> <<ToString(Get(S, S.holds[h].o, q).v)>>])
PokeOp(d) == IF Held = {} THEN Nothing
  ELSE LET h == PickSet(Held, d[1])  q == S.holds[h].p  x == Tok(d[3] % (HMem(h).m + 1))
       IN Res(Put(S, S.holds[h].o, q, x), [op |-> "poke", h |-> h, t |-> S.holds[h].t, j |-> q[Len(q)], x |-> x, log |-> <<>>])
CallOp(d) ==
  LET v == Var(d[1])
      w == S.vars[v]
      ws == PokesOf(w.t, d)
  IN Res(Call(S, v, ws), [op |-> "call", v |-> v, t |-> w.t, pokes |-> ws, log |-> <<"called", Name(w)>> \o DumpAt(T, S, w.o, w.p, w.t)])
CallNil(d) == LET t == PickSet(Raws, d[1]) IN Res(S, [op |-> "callnil", t |-> t, log |-> <<"called", "null">>])
RefOp(d) ==
  LET v == Var(d[1])  w == S.vars[v]
  IN Res(S, [op |-> "refs", v |-> v, t |-> w.t, log |-> <<Name(w), Name(w), Name(w)>>])
CallVOp(d) ==
  LET v == Var(d[1])
      w == S.vars[v]
      ws == PokesOf(w.t, d)
      R == CallV(T, S, v, ws)
  IN Res(R, [op |-> "callv", v |-> v, t |-> w.t, pokes |-> ws, new |-> Len(R.vars), o |-> Last(R), log |-> <<"called">> \o DumpAt(T, S, w.o, w.p, w.t)])
RECURSIVE Parts(_, _, _)
Parts(vs, t, R) == IF vs = <<>> THEN <<>> ELSE LET w == R.vars[Head(vs)] IN DumpAt(T, R, w.o, w.p, t) \o Parts(Tail(vs), t, R)
ManyOp(d) ==
  LET v == Var(d[1])
      t == S.vars[v].t
      us == {u \in Live : S.vars[u].t = t}
      vs == SubSeq(<<v, PickSet(us, d[2]), PickSet(us, d[3])>>, 1, 1 + (d[4] % 3))
      R == Slice(T, S, vs)
      n == Len(vs)
      to == 1 + (d[12] % n)
      ws == PokesOf(t, d)
      o1 == Last(S)
  IN Res(Pokes(R, o1 + to, <<>>, ws), [op |-> "many", vs |-> vs, t |-> t, n |-> n, o |-> o1, new |-> Len(S.vars), to |-> to, pokes |-> ws,
         log |-> <<"called", Name(At(o1 + 1, <<>>))>> \o Parts(vs, t, S)])
CSetOp(d) ==
  LET o == PickSet({n \in DOMAIN S.mem : S.mem[n].live /\ S.mem[n].kind # "go"}, d[1])
      t == S.mem[o].t
      ws == PokesOf(t, d)
  IN Res(Pokes(S, o, <<>>, ws), [op |-> "cset", o |-> o, t |-> t, pokes |-> ws, log |-> <<>>])
AssignOp(d) ==
  LET v == Var(d[1])
      us == {u \in Live : S.vars[u].t = S.vars[v].t}
      u == PickSet(us, d[2])
  IN Res(Assign(T, S, v, u), [op |-> "assign", v |-> v, u |-> u, log |-> <<>>])
WrapOp(d) ==
  LET v == Var(d[1])
      w == S.vars[v]
      t == w.t
      us == {u \in Live : S.vars[u].t = t /\ CMem(S, S.vars[u])}
      u == IF us = {} \/ d[2] % 5 = 0 THEN 0 ELSE PickSet(us, d[3])
      ws == PokesOf(t, d)
      g == Part(T, S, w.o, w.p, t)
      x == PickSet({Nil} \cup Real(t), d[4])
      R == Back(S, t, x)
  IN Res(R, [op |-> "wrap", v |-> v, u |-> u, t |-> t, pokes |-> ws, x |-> x, new |-> Len(R.vars),
     log |-> <<"called">> \o Dump(T, t, g) \o <<IF u = 0 THEN "null" ELSE Name(S.vars[u])>> \o Dump(T, t, PokesIn(g, ws)) \o <<Name(x)>>])
FreeOp(d) ==
  LET vs == {v \in Live : S.mem[S.vars[v].o].kind = "heap" /\ S.vars[v].p = <<>>}
      v == PickSet(vs, d[1])
  IN IF vs = {} THEN Nothing ELSE Res(Free(S, v), [op |-> "free", v |-> v, o |-> S.vars[v].o, log |-> <<"freed">>])
RECURSIVE Everything(_)
Everything(o) == IF o > Len(S.mem) THEN <<>> ELSE (IF S.mem[o].live THEN Dump(T, S.mem[o].t, S.mem[o].f) ELSE <<"freed">>) \o Everything(o + 1)
AuditOp(d) == Res(S, [op |-> "audit", objs |-> [o \in DOMAIN S.mem |-> [t |-> S.mem[o].t, live |-> S.mem[o].live]], left |-> HeapLive(S), log |-> Everything(1) \o <<"bad 0", "left " \o ToString(HeapLive(S))>>])

Do(o) ==
  LET d == o.d
  IN CASE o.op = "new" -> New_(d, FALSE) [] o.op = "newnil" -> New_(d, TRUE) [] o.op = "back" -> BackOp(d) [] o.op = "callnil" -> CallNil(d)
       [] o.op = "cset" -> CSetOp(d) [] o.op = "audit" -> AuditOp(d) [] o.op = "peek" -> PeekOp(d) [] o.op = "poke" -> PokeOp(d)
       [] OTHER -> IF Live = {} THEN Nothing
          ELSE CASE o.op = "sub" -> SubOp(d) [] o.op = "follow" -> FollowOp(d) [] o.op = "set" -> SetOp(d) [] o.op = "link" -> LinkOp(d)
                 [] o.op = "read" -> ReadOp(d) [] o.op = "hold" -> HoldOp(d) [] o.op = "call" -> CallOp(d) [] o.op = "refs" -> RefOp(d)
                 [] o.op = "callv" -> CallVOp(d) [] o.op = "many" -> ManyOp(d) [] o.op = "assign" -> AssignOp(d) [] o.op = "wrap" -> WrapOp(d)
                 [] o.op = "free" -> FreeOp(d) [] OTHER -> Nothing

Init ==
  /\ i \in DOMAIN Cases /\ p \in DOMAIN Cases[i].progs /\ k = 1
  /\ S = [mem |-> [n \in DOMAIN Cases[i].statics |-> [t |-> Cases[i].statics[n], kind |-> "static", live |-> TRUE, f |-> Zeros(Cases[i].types, Cases[i].statics[n])]],
          vars |-> <<>>, holds |-> <<>>]
Prog == Cases[i].progs[p]
Step ==
  /\ k <= Len(Prog) /\ k' = k + 1
  /\ \E r \in {Do(Prog[k])} :
       /\ S' = r.S
       /\ IF r.ev.op = "none" THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, p |-> p, k |-> k, ev |-> r.ev]))
  /\ UNCHANGED <<i, p>>
Spec == Init /\ [][Step]_all
=============================================================================
