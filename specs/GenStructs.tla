---------------------------- MODULE GenStructs ----------------------------
(* Programs over struct wrappers: each case has a layout, static C objects and  *)
(* a sequence of proposed operations with dice; what may be done is done and    *)
(* printed with what Go and C must see.                                         *)
EXTENDS Structs, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, p, k, S, vars, noted, leak
all == <<i, p, k, S, vars, noted, leak>>
lay == Cases[i]
Pick(s, n) == s[(n % Len(s)) + 1]
PickSet(s, n) == CHOOSE e \in s : Cardinality({q \in s : q < e}) = n % Cardinality(s)
None == [op |-> "none"]

(* static objects: [what, t, f, vals] *)
RECURSIVE Statics(_, _, _, _)
Statics(l, R, seq, j) ==
  IF j > Len(seq) THEN R
  ELSE LET s == seq[j]
       IN Statics(l, CASE s.what = "struct" -> NewStruct(l, R, s.t, "static", 0)
                       [] s.what = "arr" -> Structs(l, R, s.t, s.n, "static", 0)
                       [] s.what = "ptrs" -> Add(R, Block("static", "ptrs", 0, 0, 0, [m \in DOMAIN s.at |-> Cp(s.at[m])]))
                       [] OTHER -> Add(R, Block("static", s.what, s.t, s.f, 0, [m \in DOMAIN s.vals |-> Cs(s.vals[m])])), seq, j + 1)
StaticsOf(what, t, f) == {b \in DOMAIN S.mem : S.mem[b].kind = "static" /\ S.mem[b].what = what /\ S.mem[b].t = t /\ S.mem[b].f = f}

(* ------------------------------------------------------------- setting *)
Nth(d, j) == IF j > Len(d) THEN 0 ELSE d[j]
(* where: [w, i, path], w = 0 if there is no such place *)
RECURSIVE Target(_, _, _, _)
Target(w, d, j, path) ==
  LET x == S.go[w]
      m == (Nth(d, j) % Len(x.f)) + 1
      g == x.f[m]
      at == Append(path, m)
  IN IF g.k = "hid" \/ j > Len(d) THEN [w |-> 0, i |-> 0, path |-> path]
     ELSE IF g.k = "val" THEN Target(g.w, d, j + 1, at)
     ELSE IF g.k = "va" \/ (g.k = "vs" /\ Len(g.ws) > 0 /\ Nth(d, j + 1) % 4 > 0)
     THEN LET e == Nth(d, j + 2) % Len(g.ws) IN Target(g.ws[e + 1], d, j + 3, Append(at, e))
     ELSE [w |-> w, i |-> m, path |-> at]
RECURSIVE Reach(_)
Reach(w) == {w} \cup UNION {LET g == S.go[w].f[m] IN (IF g.w = 0 THEN {} ELSE Reach(g.w)) \cup UNION {Reach(g.ws[e]) : e \in DOMAIN g.ws} : m \in DOMAIN S.go[w].f}
Texts0 == <<"a", "", "bcd", "zz">>
RECURSIVE FreshWs(_, _, _)
FreshWs(R, t, n) == IF n = 0 THEN [S |-> R, ws |-> <<>>] ELSE LET q == FreshWs(NewWr(lay, R, t), t, n - 1) IN [S |-> q.S, ws |-> <<Len(R.go) + 1>> \o q.ws]
SetTo(w, m, g) == [S EXCEPT !.go[w].f[m] = g]
Set(d) ==
  LET v == (d[1] % Len(vars)) + 1
      at == Target(vars[v], d, 3, <<>>)
      fd == lay.types[S.go[at.w].t][at.i]
      g == Gf(fd.k)
      e == d[2]
      Ev(k1, val, vals) == [op |-> "set", v |-> v, path |-> at.path, k |-> k1, val |-> val, vals |-> vals]
      cand == {q \in DOMAIN vars : S.go[vars[q]].t = fd.t /\ at.w \notin Reach(vars[q]) /\ S.go[vars[q]].ref = 0}
      cand2 == {q \in DOMAIN vars : S.go[vars[q]].t = fd.t /\ at.w \notin Reach(vars[q]) /\ (S.go[vars[q]].ref # 0 => S.mem[Root(S.mem, S.go[vars[q]].ref)].kind # "go")}
      cnd == IF e % 2 = 0 /\ cand # {} THEN cand ELSE cand2
      data == [j \in 1..(e % 4) |-> NatStr(d[2 + j] % (fd.m + 1))]
  IN IF at.w = 0 THEN [S |-> S, ev |-> None]
     ELSE CASE fd.k = "v" -> LET x == NatStr(e % (fd.m + 1)) IN [S |-> SetTo(at.w, at.i, [g EXCEPT !.v = x]), ev |-> Ev("v", x, <<>>)]
            [] fd.k = "len" -> LET x == NatStr(e % 4) IN [S |-> SetTo(at.w, at.i, [g EXCEPT !.v = x]), ev |-> Ev("len", x, <<>>)]
            [] fd.k = "sl" -> IF e % 7 = 0 THEN [S |-> SetTo(at.w, at.i, g), ev |-> Ev("nil", "", <<>>)]
                              ELSE [S |-> LET R == SetTo(at.w, at.i, [g EXCEPT !.b = Top(S) + 1, !.n = e % 4])
                                          IN Add(R, Block("go", "data", S.go[at.w].t, at.i, 0, [j \in DOMAIN data |-> Cs(data[j])])),
                                    ev |-> Ev("sl", "", data)]
            [] fd.k = "str" -> LET x == Pick(Texts0, e) IN [S |-> SetTo(at.w, at.i, [g EXCEPT !.v = x]), ev |-> Ev("str", x, <<>>)]
            [] fd.k = "ss" -> IF e % 7 = 0 THEN [S |-> SetTo(at.w, at.i, g), ev |-> Ev("nil", "", <<>>)]
                              ELSE LET t == [j \in 1..(e % 3) |-> Pick(Texts0, d[2 + j])]
                                   IN [S |-> LET R == SetTo(at.w, at.i, [g EXCEPT !.b = Top(S) + 1, !.vs = t, !.bs = [j \in DOMAIN t |-> 0]])
                                             IN Add(R, Block("go", "ptrs", 0, 0, 0, <<>>)),
                                       ev |-> Ev("ss", "", t)]
            [] fd.k = "ref" -> IF e % 5 = 0 \/ cnd = {} THEN [S |-> SetTo(at.w, at.i, g), ev |-> Ev("nil", "", <<>>)]
                               ELSE LET q == PickSet(cnd, e) IN [S |-> SetTo(at.w, at.i, [g EXCEPT !.w = vars[q]]), ev |-> Ev("ref", NatStr(q), <<>>)]
            [] fd.k = "vs" -> IF e % 7 = 0 THEN [S |-> SetTo(at.w, at.i, g), ev |-> Ev("nil", "", <<>>)]
                              ELSE LET n == e % 4
                                       q == FreshWs(Add(S, Block("go", "ptrs", 0, 0, 0, <<>>)), fd.t, n)
                                   IN [S |-> [q.S EXCEPT !.go[at.w].f[at.i] = [g EXCEPT !.b = Top(S) + 1, !.ws = q.ws]], ev |-> Ev("vs", NatStr(n), <<>>)]
            [] OTHER -> [S |-> S, ev |-> None]

(* ---------------------------------------------------------- writes of C *)
(* the place is found from block b of R with the dice; [S, w] where w is a write *)
RECURSIVE Poke(_, _, _, _, _, _)
NoPoke(R) == [S |-> R, w |-> <<>>]
Poke(R, b, d, j, path, low) ==   \* low: only statics below this may be pointed to
  LET blk == R.mem[b]
      m == (Nth(d, j) % Len(blk.cells)) + 1
      fd == IF blk.what = "struct" THEN lay.types[blk.t][m] ELSE IF blk.what = "data" THEN lay.types[blk.t][blk.f] ELSE [k |-> blk.what]
      c == blk.cells[m]
      at == Append(path, IF blk.what = "struct" THEN m ELSE m - 1)
      e == Nth(d, j + 1)
      Put(k1, cell) == [S |-> [R EXCEPT !.mem[b].cells[m] = cell], w |-> <<[path |-> at, k |-> k1, v |-> cell.v, b |-> cell.b]>>]
      Point(bs) == LET ok == {q \in bs : q < low} IN IF e % 4 = 0 \/ ok = {} THEN Put("null", Cp(0)) ELSE Put("ptr", Cp(PickSet(ok, e)))
      Into == IF c.b = 0 THEN NoPoke(R) ELSE IF ~Live(R.mem, c.b) THEN NoPoke(R) ELSE Poke(R, c.b, d, j + 2, at, low)
  IN IF j > Len(d) \/ blk.cells = <<>> THEN NoPoke(R)
     ELSE IF b = 0 \/ ~Live(R.mem, b) \/ R.mem[Root(R.mem, b)].kind = "go" THEN NoPoke(R)
     ELSE CASE fd.k = "v" -> Put("v", Cs(NatStr(e % (fd.m + 1))))
            [] fd.k = "len" -> Put("len", Cs(NatStr(e % 4)))
            [] fd.k = "hid" -> Put("v", Cs(NatStr(e % (fd.m + 1))))
            [] fd.k = "sl" /\ blk.what = "data" -> Put("v", Cs(NatStr(e % (fd.m + 1))))
            [] fd.k = "sl" -> IF e % 3 = 0 THEN Into ELSE Point(StaticsOf("data", blk.t, m))
            [] fd.k = "str" -> Point(StaticsOf("text", 0, 0))
            [] fd.k = "ptrs" -> Point(StaticsOf("text", 0, 0))
            [] fd.k = "ss" -> IF e % 3 = 0 THEN Into ELSE Point(StaticsOf("ptrs", 0, 0))
            [] fd.k = "ref" -> IF e % 3 = 0 THEN Into ELSE Point(StaticsOf("struct", fd.t, 0))
            [] fd.k \in {"val", "va", "arr"} -> Poke(R, c.b, d, j + 1, at, low)
            [] fd.k = "vs" -> IF e % 3 = 0 THEN Into ELSE Point(StaticsOf("arr", fd.t, 0))
            [] OTHER -> NoPoke(R)
Low(R, b) == IF R.mem[Root(R.mem, b)].kind = "static" THEN Root(R.mem, b) ELSE 10000
(* statics may be reached through b: they must not get pointers upwards *)
Poke1(R, b, d) ==
  LET q == Poke(R, b, d, 6, <<>>, 10000)
  IN IF \E m \in DOMAIN R.mem : q.S.mem[m] # R.mem[m] /\ R.mem[Root(R.mem, m)].kind = "static"
        /\ \E c \in DOMAIN q.S.mem[m].cells : q.S.mem[m].cells[c].k = "p" /\ q.S.mem[m].cells[c].b >= Root(R.mem, m) THEN NoPoke(R) ELSE q

(* --------------------------------------------------------- operations *)
Res(R, vs, ev) == [S |-> R, vars |-> vs, ev |-> ev, leak |-> leak]
Nothing == Res(S, vars, None)
Var(d) == (d[1] % Len(vars)) + 1
RECURSIVE NoFresh(_)
NoFresh(w) == \A m \in DOMAIN S.go[w].f :
  LET g == S.go[w].f[m]
  IN /\ (g.k = "ref" /\ g.w # 0) => S.go[g.w].ref # 0
     /\ (g.k = "val") => NoFresh(g.w)
     /\ \A e \in DOMAIN g.ws : NoFresh(g.ws[e])
(* no C memory would come to point to memory of Go *)
RECURSIVE NoGo(_)
NoGo(w) ==
  S.go[w].ref # 0 \/ \A m \in DOMAIN S.go[w].f :
    LET g == S.go[w].f[m]
    IN /\ (g.k = "ref" /\ g.w # 0) => IF S.go[g.w].ref # 0 THEN S.mem[Root(S.mem, S.go[g.w].ref)].kind # "go" ELSE NoGo(g.w)
       /\ g.k = "val" => NoGo(g.w)
       /\ \A e \in DOMAIN g.ws : NoGo(g.ws[e])
Fit(w) == SaneG(lay, S, w)
Make(d) == LET t == (d[1] % Len(lay.types)) + 1 IN Res(NewWr(lay, S, t), Append(vars, Len(S.go) + 1), [op |-> "make", v |-> Len(vars) + 1, t |-> t])
Call(d) ==
  LET v == Var(d)
      w == vars[v]
      R == Pass(lay, S, w)
      b == R.go[w].ref
      q == IF d[2] % 3 = 0 THEN NoPoke(R) ELSE Poke1(R, b, d)
  IN IF d[2] % 11 = 0 THEN Res(S, vars, [op |-> "callnil", t |-> S.go[w].t])
     ELSE IF ~Fit(w) \/ ~NoGo(w) THEN Nothing
     ELSE Res(q.S, vars, [op |-> "call", v |-> v, t |-> S.go[w].t, looks |-> Looks(lay, R, b, <<>>, 1, 2), pokes |-> q.w, fresh |-> S.go[w].ref = 0])
CallV(d) ==
  LET v == Var(d)
      w == vars[v]
      b == Top(S) + 1
      R == PassValue(lay, NewStruct(lay, S, S.go[w].t, "static", 0), w, b).S
      q == IF d[2] % 3 = 0 THEN NoPoke(R) ELSE Poke1(R, b, d)
      gone == [q.S EXCEPT !.mem[b].what = "gone"]
  IN IF ~Fit(w) \/ ~NoGo(w) THEN Nothing
     ELSE [Res(gone, vars, [op |-> "callv", v |-> v, t |-> S.go[w].t, looks |-> Looks(lay, R, b, <<>>, 1, 2), pokes |-> q.w]) EXCEPT !.leak = TRUE]
Back(d) ==
  LET t == (d[1] % Len(lay.types)) + 1
      bs == StaticsOf("struct", t, 0)
      b == PickSet(bs, d[2])
  IN IF d[2] % 5 = 0 THEN Res(S, vars, [op |-> "backnil", t |-> t])
     ELSE Res(NewRef(lay, S, t, b), Append(vars, Len(S.go) + 1), [op |-> "back", t |-> t, b |-> b, v |-> Len(vars) + 1, api |-> d[3] % 2])
Giv(d) ==
  LET t == (d[1] % Len(lay.types)) + 1
      b == PickSet(StaticsOf("struct", t, 0), d[2])
      n == Top(S) + 1
  IN Res(NewRef(lay, Copy(NewStruct(lay, S, t, "go", 0), b, n, 1), t, n), Append(vars, Len(S.go) + 1), [op |-> "giv", t |-> t, b |-> b, v |-> Len(vars) + 1])
CSet(d) ==
  LET t == (d[1] % Len(lay.types)) + 1
      b == PickSet(StaticsOf("struct", t, 0), d[2])
      q == Poke1(S, b, d)
  IN IF q.w = <<>> THEN Nothing ELSE Res(q.S, vars, [op |-> "cset", t |-> t, b |-> b, pokes |-> q.w])
Many(d) ==
  LET v == Var(d)
      w == vars[v]
      is == {m \in DOMAIN S.go[w].f : S.go[w].f[m].k = "vs"}
      m == PickSet(is, d[2])
      g == S.go[w].f[m]
      t == lay.types[S.go[w].t][m].t
      arr == Top(S) + 1
      r == PassValues(lay, Structs(lay, S, t, Len(g.ws), "heap", 0), g.ws, arr, 1, {arr})
      q == IF d[2] % 3 = 0 \/ Len(g.ws) = 0 THEN NoPoke(r.S) ELSE Poke1(r.S, arr, d)
      R == Snapshots(lay, q.S, w, m, arr, 1)
  IN IF is = {} THEN Nothing
     ELSE IF g.b = 0 THEN Res(S, vars, [op |-> "manynil", v |-> v, f |-> m, t |-> t])
     ELSE IF \E e \in DOMAIN g.ws : ~Fit(g.ws[e]) \/ ~NoGo(g.ws[e]) \/ ~NoFresh(g.ws[e]) THEN Nothing
     ELSE Res([R EXCEPT !.mem = [b \in DOMAIN @ |-> IF b \in r.own THEN [@[b] EXCEPT !.live = FALSE, !.kind = "temp"] ELSE @[b]]], vars,
              [op |-> "many", v |-> v, f |-> m, t |-> t, n |-> Len(g.ws), looks |-> Elems(lay, r.S, arr, <<>>, 1, 2), pokes |-> q.w])
Take(d) ==
  LET v == Var(d)
      w == vars[v]
      is == {m \in DOMAIN S.go[w].f : S.go[w].f[m].k = "ref" /\ S.go[w].f[m].w # 0}
      m == PickSet(is, d[2])
  IN IF is = {} THEN Nothing ELSE Res(S, Append(vars, S.go[w].f[m].w), [op |-> "take", v |-> v, f |-> m, new |-> Len(vars) + 1])
DerefOp(d) ==
  LET v == Var(d)
      w == vars[v]
  IN IF S.go[w].ref = 0 THEN Res(S, vars, [op |-> "deref", v |-> v])
     ELSE IF ~SaneC(lay, S, S.go[w].ref) \/ ~Enough(lay, S, w) THEN Nothing
     ELSE Res(Deref(lay, S, w), vars, [op |-> "deref", v |-> v])
FreeOp(d) == LET v == Var(d) IN Res(Free(S, vars[v]), vars, [op |-> "free", v |-> v])
ShowOp(d) == LET v == Var(d) IN IF ~Fit(vars[v]) THEN Nothing ELSE Res(S, vars, [op |-> "show", v |-> v, s |-> Show(S, vars[v], 2)])
Reset(d) ==
  LET v == Var(d)
      w == vars[v]
      R == NewWr(lay, S, S.go[w].t)
  IN IF Fit(w) \/ S.go[w].own # {} THEN Nothing
     ELSE Res([R EXCEPT !.go[w] = R.go[Len(S.go) + 1]], vars, [op |-> "reset", v |-> v, t |-> S.go[w].t])
Audit(d) ==
  Res(S, vars, [op |-> "audit", noted |-> [j \in 1..Cardinality(noted) |-> LET b == PickSet(noted, j - 1) IN [b |-> b, r |-> State(S, b)]],
                zero |-> ~leak /\ \A b \in DOMAIN S.mem : S.mem[b].kind \in {"temp"} \/ (S.mem[b].kind = "heap" => ~S.mem[b].live),
                temp |-> \E b \in DOMAIN S.mem : S.mem[b].kind = "temp"])
Do(o) ==
  LET d == o.d
  IN CASE o.op = "make" -> Make(d) [] o.op = "set" -> LET r == Set(d) IN Res(r.S, vars, r.ev)
       [] o.op = "call" -> Call(d) [] o.op = "callv" -> CallV(d) [] o.op = "back" -> Back(d) [] o.op = "giv" -> Giv(d)
       [] o.op = "cset" -> CSet(d) [] o.op = "many" -> Many(d) [] o.op = "take" -> Take(d) [] o.op = "deref" -> DerefOp(d)
       [] o.op = "free" -> FreeOp(d) [] o.op = "show" -> ShowOp(d) [] o.op = "reset" -> Reset(d) [] o.op = "audit" -> Audit(d)
       [] OTHER -> Nothing

Init ==
  /\ i \in DOMAIN Cases
  /\ p \in DOMAIN Cases[i].progs
  /\ k = 1
  /\ S = Statics(Cases[i], [go |-> <<>>, mem |-> <<>>], Cases[i].statics, 1)
  /\ vars = <<>>
  /\ noted = {}
  /\ leak = FALSE
Prog == Cases[i].progs[p]
Step ==
  /\ k <= Len(Prog)
  /\ k' = k + 1
  /\ \E r \in {IF vars = <<>> /\ Prog[k].op \notin {"make", "back", "giv", "cset", "audit"} THEN Nothing ELSE Do(Prog[k])} :
       /\ S' = r.S
       /\ vars' = r.vars
       /\ leak' = r.leak
       /\ noted' = IF "looks" \in DOMAIN r.ev THEN noted \cup {r.ev.looks[j].b : j \in {q \in DOMAIN r.ev.looks : r.ev.looks[q].c = "state" /\ r.ev.looks[q].r = "heap"}} ELSE noted
       /\ IF r.ev.op = "none" THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, p |-> p, k |-> k, ev |-> r.ev]))
  /\ UNCHANGED <<i, p>>
Spec == Init /\ [][Step]_all
(* the wrappers never own the same block, nor one that was freed, nor one of another kind *)
Owned ==
  \A a \in DOMAIN S.go :
    /\ \A b \in S.go[a].own : S.mem[b].kind = "heap" /\ S.mem[b].live
    /\ \A c \in DOMAIN S.go : a # c => S.go[a].own \cap S.go[c].own = {}
=============================================================================
