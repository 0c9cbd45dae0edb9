------------------------------ MODULE Structs ------------------------------
(* The life of the Go wrappers of C structs: PassRef, PassValue, Deref, Free, New *)
(* ...Ref and calls that take and return structs.                                 *)
(*                                                                                *)
(* lay.types: the struct types, each a sequence of fields [k, t, l, n]:           *)
(*   v    anything copied bit by bit        len  an integer that says a length    *)
(*   sl   plain slice (its length in field l of the C struct, if l # 0)           *)
(*   str  string           ss  slice of strings                                   *)
(*   ref  pointer to a struct of type t     val  struct of type t                 *)
(*   vs   slice of structs of type t        va   array of n structs of type t     *)
(*   hid  a member that the Go struct does not have                               *)
(* S.go: the wrappers [t, f, ref, has, own]: f a sequence of Go values            *)
(*   [k, v, b, n, w, ws, vs, bs], ref the C object (a block) or 0, has whether    *)
(*   there is a map of allocations, own what is in it.                            *)
(* S.mem: the blocks of memory [kind, live, what, t, f, root, cells]; kind: heap  *)
(*   (of C), static (of C), go; in: part of the block root; what: data, text,     *)
(*   ptrs (to texts), struct, arr (of structs); t, f: struct type and field of    *)
(*   data.  Cells [k, v, b]: s (value), p (pointer to block b), in (block b).     *)
EXTENDS Strings, Sequences, FiniteSets

Cs(v) == [k |-> "s", v |-> v, b |-> 0]
Cp(b) == [k |-> "p", v |-> "", b |-> b]
Cin(b) == [k |-> "in", v |-> "", b |-> b]
Gf(k) == [k |-> k, v |-> IF k \in {"v", "len"} THEN "0" ELSE "", b |-> 0, n |-> 0, w |-> 0, ws |-> <<>>, vs |-> <<>>, bs |-> <<>>]
Block(kind, what, t, f, root, cells) == [kind |-> kind, live |-> TRUE, what |-> what, t |-> t, f |-> f, root |-> root, cells |-> cells]
Wr(t, f) == [t |-> t, f |-> f, ref |-> 0, has |-> FALSE, own |-> {}]
Root(mem, b) == IF mem[b].root = 0 THEN b ELSE mem[b].root
Live(mem, b) == mem[Root(mem, b)].live
Add(S, bl) == [S EXCEPT !.mem = Append(@, bl)]
Top(S) == Len(S.mem)

(* ------------------------------------------------------ new C objects *)
RECURSIVE NewStruct(_, _, _, _, _), Inline(_, _, _, _, _), Structs(_, _, _, _, _, _)
NewStruct(lay, S, t, kind, root) ==   \* its block is Len(S.mem) + 1
  LET b == Top(S) + 1
  IN Inline(lay, Add(S, Block(IF root = 0 THEN kind ELSE "in", "struct", t, 0, root, [j \in DOMAIN lay.types[t] |-> IF lay.types[t][j].k \in {"v", "len", "hid"} THEN Cs("0") ELSE Cp(0)])),
            b, IF root = 0 THEN b ELSE root, 1)
Inline(lay, S, b, root, i) ==
  LET t == S.mem[b].t
      fd == lay.types[t][i]
  IN IF i > Len(lay.types[t]) THEN S
     ELSE IF fd.k = "val" THEN Inline(lay, NewStruct(lay, [S EXCEPT !.mem[b].cells[i] = Cin(Top(S) + 1)], fd.t, "in", root), b, root, i + 1)
     ELSE IF fd.k = "va" THEN Inline(lay, Structs(lay, [S EXCEPT !.mem[b].cells[i] = Cin(Top(S) + 1)], fd.t, fd.n, "in", root), b, root, i + 1)
     ELSE Inline(lay, S, b, root, i + 1)
(* an array of n structs *)
RECURSIVE More(_, _, _, _, _, _)
More(lay, S, b, t, n, root) ==
  IF n = 0 THEN S
  ELSE More(lay, NewStruct(lay, [S EXCEPT !.mem[b].cells = Append(@, Cin(Top(S) + 1))], t, "in", root), b, t, n - 1, root)
Structs(lay, S, t, n, kind, root) ==
  LET b == Top(S) + 1 IN More(lay, Add(S, Block(kind, "arr", t, 0, root, <<>>)), b, t, n, IF root = 0 THEN b ELSE root)

RECURSIVE Copy(_, _, _, _)
Copy(S, src, dst, i) ==   \* the contents of a struct or array of structs
  IF i > Len(S.mem[src].cells) THEN S
  ELSE LET c == S.mem[src].cells[i]
       IN IF c.k = "in" THEN Copy(Copy(S, c.b, S.mem[dst].cells[i].b, 1), src, dst, i + 1)
          ELSE Copy([S EXCEPT !.mem[dst].cells[i] = c], src, dst, i + 1)

(* ---------------------------------------------------- new Go wrappers *)
RECURSIVE NewWr(_, _, _), Subs(_, _, _, _)
NewWr(lay, S, t) ==   \* the wrapper is Len(S.go) + 1
  LET w == Len(S.go) + 1
  IN Subs(lay, [S EXCEPT !.go = Append(@, Wr(t, [j \in DOMAIN lay.types[t] |-> Gf(lay.types[t][j].k)]))], w, 1)
RECURSIVE NewWrs(_, _, _, _, _, _)
NewWrs(lay, S, w, i, t, n) ==   \* n elements more for field i of w
  IF n = 0 THEN S ELSE NewWrs(lay, NewWr(lay, [S EXCEPT !.go[w].f[i].ws = Append(@, Len(S.go) + 1)], t), w, i, t, n - 1)
Subs(lay, S, w, i) ==
  LET ty == lay.types[S.go[w].t]
      fd == ty[i]
  IN IF i > Len(ty) THEN S
     ELSE IF fd.k = "val" THEN Subs(lay, NewWr(lay, [S EXCEPT !.go[w].f[i].w = Len(S.go) + 1], fd.t), w, i + 1)
     ELSE IF fd.k = "va" THEN Subs(lay, NewWrs(lay, S, w, i, fd.t, fd.n), w, i + 1)
     ELSE Subs(lay, S, w, i + 1)
(* New...Ref of block b (not NULL) *)
NewRef(lay, S, t, b) == LET w == Len(S.go) + 1 IN [NewWr(lay, S, t) EXCEPT !.go[w].ref = b]

(* ------------------------------------------------------------ Go to C *)
RECURSIVE PassRef(_, _, _), Fill(_, _, _, _, _, _), PassValue(_, _, _, _), PassValues(_, _, _, _, _, _), Texts(_, _, _, _, _)
(* a Go string may be backed by a text of C *)
Text(S, b, v) == IF b = 0 THEN v ELSE S.mem[b].cells[1].v
TextsOf(S, g) == [j \in DOMAIN g.vs |-> Text(S, g.bs[j], g.vs[j])]
(* each returns [S, own]: what was allocated for it *)
PassRef(lay, S, w) ==
  IF S.go[w].ref # 0 THEN [S |-> S, own |-> {}]
  ELSE LET b == Top(S) + 1
           r == Fill(lay, NewStruct(lay, S, S.go[w].t, "heap", 0), S.go[w], b, 1, {b})
       IN [S |-> [r.S EXCEPT !.go[w].ref = b, !.go[w].has = TRUE, !.go[w].own = {}], own |-> r.own]
(* the object itself, in a given place; the wrapper is copied and so stays as it is *)
PassValue(lay, S, w, dst) ==
  IF S.go[w].ref # 0 THEN [S |-> Copy(S, S.go[w].ref, dst, 1), own |-> {}]
  ELSE LET b == Top(S) + 1
           r == Fill(lay, NewStruct(lay, S, S.go[w].t, "heap", 0), S.go[w], b, 1, {b})
       IN [S |-> Copy(r.S, b, dst, 1), own |-> r.own]
PassValues(lay, S, ws, arr, i, own) ==
  IF i > Len(ws) THEN [S |-> S, own |-> own]
  ELSE LET r == PassValue(lay, S, ws[i], S.mem[arr].cells[i].b) IN PassValues(lay, r.S, ws, arr, i + 1, own \cup r.own)
Texts(S, arr, vs, i, own) ==
  IF i > Len(vs) THEN [S |-> S, own |-> own]
  ELSE LET b == Top(S) + 1
       IN Texts(Add([S EXCEPT !.mem[arr].cells = Append(@, Cp(b))], Block("heap", "text", 0, 0, 0, <<Cs(vs[i])>>)), arr, vs, i + 1, own \cup {b})
Fill(lay, S, x, b, i, own) ==
  LET t == S.mem[b].t
      fd == lay.types[t][i]
      g == x.f[i]
      new == Top(S) + 1
      Point(R) == [R EXCEPT !.mem[b].cells[i] = Cp(new)]
  IN IF i > Len(lay.types[t]) THEN [S |-> S, own |-> own]
     ELSE IF fd.k \in {"v", "len"} THEN Fill(lay, [S EXCEPT !.mem[b].cells[i] = Cs(g.v)], x, b, i + 1, own)
     ELSE IF fd.k = "sl" /\ g.b # 0
     THEN Fill(lay, Point(Add(S, Block("heap", "data", t, i, 0, SubSeq(S.mem[g.b].cells, 1, g.n)))), x, b, i + 1, own \cup {new})
     ELSE IF fd.k = "str" THEN Fill(lay, Point(Add(S, Block("heap", "text", 0, 0, 0, <<Cs(Text(S, g.b, g.v))>>))), x, b, i + 1, own \cup {new})
     ELSE IF fd.k = "ss" /\ g.b # 0
     THEN LET r == Texts(Point(Add(S, Block("heap", "ptrs", 0, 0, 0, <<>>))), new, TextsOf(S, g), 1, {new}) IN Fill(lay, r.S, x, b, i + 1, own \cup r.own)
     ELSE IF fd.k = "ref" /\ g.w # 0
     THEN LET r == PassRef(lay, S, g.w) IN Fill(lay, [r.S EXCEPT !.mem[b].cells[i] = Cp(r.S.go[g.w].ref)], x, b, i + 1, own \cup r.own)
     ELSE IF fd.k = "val" THEN LET r == PassValue(lay, S, g.w, S.mem[b].cells[i].b) IN Fill(lay, r.S, x, b, i + 1, own \cup r.own)
     ELSE IF fd.k = "va"
     THEN LET r == PassValues(lay, Structs(lay, S, fd.t, fd.n, "heap", 0), g.ws, new, 1, {new})
          IN Fill(lay, Copy(r.S, new, S.mem[b].cells[i].b, 1), x, b, i + 1, own \cup r.own)
     ELSE IF fd.k = "vs" /\ g.b # 0
     THEN LET r == PassValues(lay, Point(Structs(lay, S, fd.t, Len(g.ws), "heap", 0)), g.ws, new, 1, {new}) IN Fill(lay, r.S, x, b, i + 1, own \cup r.own)
     ELSE Fill(lay, S, x, b, i + 1, own)
(* PassRef by the user: the wrapper itself owns what was allocated *)
Pass(lay, S, w) == LET r == PassRef(lay, S, w) IN IF S.go[w].ref # 0 THEN S ELSE [r.S EXCEPT !.go[w].own = r.own]
Free(S, w) ==
  IF ~S.go[w].has THEN S
  ELSE [go |-> [S.go EXCEPT ![w].ref = 0, ![w].own = {}], mem |-> [b \in DOMAIN S.mem |-> IF b \in S.go[w].own THEN [S.mem[b] EXCEPT !.live = FALSE] ELSE S.mem[b]]]

(* ------------------------------------------------------------ C to Go *)
RECURSIVE DerefFrom(_, _, _, _), Snapshots(_, _, _, _, _, _)
(* element i of the Go slice becomes a wrapper of a copy of element i in C *)
Snapshots(lay, S, w, i, arr, j) ==
  IF j > Len(S.go[w].f[i].ws) THEN S
  ELSE LET t == S.mem[arr].t
           b == Top(S) + 1
           R == Copy(NewStruct(lay, S, t, "go", 0), S.mem[arr].cells[j].b, b, 1)
       IN Snapshots(lay, [NewRef(lay, R, t, b) EXCEPT !.go[w].f[i].ws[j] = Len(R.go) + 1], w, i, arr, j + 1)
DerefFrom(lay, S, w, i) ==
  LET x == S.go[w]
      fd == lay.types[x.t][i]
      c == S.mem[x.ref].cells[i]
      next == Len(S.go) + 1
  IN IF i > Len(x.f) THEN S
     ELSE IF fd.k \in {"v", "len"} THEN DerefFrom(lay, [S EXCEPT !.go[w].f[i].v = c.v], w, i + 1)
     ELSE IF fd.k = "sl"
     THEN DerefFrom(lay, [S EXCEPT !.go[w].f[i].b = c.b, !.go[w].f[i].n = IF fd.l = 0 THEN @ ELSE CHOOSE n \in 0..9 : NatStr(n) = S.mem[x.ref].cells[fd.l].v], w, i + 1)
     ELSE IF fd.k = "str"
     THEN DerefFrom(lay, [S EXCEPT !.go[w].f[i].v = "", !.go[w].f[i].b = IF c.b = 0 THEN 0 ELSE IF S.mem[c.b].cells[1].v = "" THEN 0 ELSE c.b], w, i + 1)
     ELSE IF fd.k = "ss"
     THEN DerefFrom(lay, IF x.f[i].vs = <<>> THEN S
                         ELSE [S EXCEPT !.go[w].f[i].vs = [j \in DOMAIN @ |-> ""],
                                        !.go[w].f[i].bs = [j \in DOMAIN @ |-> LET p == S.mem[c.b].cells[j].b IN IF p = 0 THEN 0 ELSE IF S.mem[p].cells[1].v = "" THEN 0 ELSE p]], w, i + 1)
     ELSE IF fd.k = "ref"
     THEN IF c.b = 0 THEN DerefFrom(lay, [S EXCEPT !.go[w].f[i].w = 0], w, i + 1)
          ELSE DerefFrom(lay, [NewRef(lay, S, fd.t, c.b) EXCEPT !.go[w].f[i].w = next], w, i + 1)
     ELSE IF fd.k = "val" THEN DerefFrom(lay, [NewRef(lay, S, fd.t, c.b) EXCEPT !.go[w].f[i].w = next], w, i + 1)
     ELSE IF fd.k \in {"va", "vs"} THEN DerefFrom(lay, IF Len(x.f[i].ws) = 0 THEN S ELSE Snapshots(lay, S, w, i, c.b, 1), w, i + 1)
     ELSE DerefFrom(lay, S, w, i + 1)
Deref(lay, S, w) == IF S.go[w].ref = 0 THEN S ELSE DerefFrom(lay, S, w, 1)

(* ------------------------------------------------- what may be looked at *)
(* Nothing that a step looks at may have been freed. *)
RECURSIVE SaneC(_, _, _)
SaneC(lay, S, b) ==
  /\ Live(S.mem, b)
  /\ \A i \in DOMAIN S.mem[b].cells : S.mem[b].cells[i].b # 0 => SaneC(lay, S, S.mem[b].cells[i].b)
RECURSIVE SaneG(_, _, _), SaneF(_, _, _)
SaneF(lay, S, g) ==
  /\ g.k \in {"sl", "str"} => (g.b = 0 \/ Live(S.mem, g.b))
  /\ g.k = "sl" => IF g.b = 0 THEN g.n = 0 ELSE g.n <= Len(S.mem[g.b].cells)
  /\ \A j \in DOMAIN g.bs : g.bs[j] = 0 \/ Live(S.mem, g.bs[j])
  /\ g.w # 0 => SaneG(lay, S, g.w)
  /\ \A j \in DOMAIN g.ws : SaneG(lay, S, g.ws[j])
SaneG(lay, S, w) ==
  /\ S.go[w].ref # 0 => SaneC(lay, S, S.go[w].ref)
  /\ \A i \in DOMAIN S.go[w].f : SaneF(lay, S, S.go[w].f[i])
(* C has as many elements as Go will read *)
Enough(lay, S, w) ==
  LET x == S.go[w]
  IN x.ref = 0 \/ \A i \in DOMAIN x.f :
       LET g == x.f[i]
           c == S.mem[x.ref].cells[i]
       IN /\ (g.k = "sl" /\ g.n > 0 /\ lay.types[x.t][i].l = 0) => c.b # 0 /\ Len(S.mem[c.b].cells) >= g.n
          /\ (g.k = "sl" /\ lay.types[x.t][i].l # 0) => \E n \in 0..(IF c.b = 0 THEN 0 ELSE Len(S.mem[c.b].cells)) : NatStr(n) = S.mem[x.ref].cells[lay.types[x.t][i].l].v
          /\ (g.k = "ss" /\ Len(g.vs) > 0) => c.b # 0 /\ Len(S.mem[c.b].cells) >= Len(g.vs)
          /\ (g.k = "vs" /\ Len(g.ws) > 0) => c.b # 0 /\ Len(S.mem[c.b].cells) >= Len(g.ws)

(* ----------------------------------------------------------- what Go sees *)
RECURSIVE Show(_, _, _), ShowFs(_, _, _, _, _), ShowWs(_, _, _, _), Commas(_, _, _)
Commas(s, i, n) == IF i > n THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o s[i] \o Commas(s, i + 1, n)
ShowWs(S, ws, i, d) == IF i > Len(ws) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o Show(S, ws[i], d) \o ShowWs(S, ws, i + 1, d)
ShowF(S, g, d) ==
  CASE g.k \in {"v", "len"} -> g.v
    [] g.k = "sl" -> IF g.b = 0 THEN "nil" ELSE "[" \o Commas([j \in 1..g.n |-> S.mem[g.b].cells[j].v], 1, g.n) \o "]"
    [] g.k = "str" -> "'" \o Text(S, g.b, g.v) \o "'"
    [] g.k = "ss" -> IF g.b = 0 THEN "nil" ELSE "[" \o Commas(TextsOf(S, g), 1, Len(g.vs)) \o "]"
    [] g.k = "ref" -> IF g.w = 0 THEN "nil" ELSE "&" \o Show(S, g.w, d - 1)
    [] g.k = "val" -> Show(S, g.w, d)
    [] g.k = "va" -> "[" \o ShowWs(S, g.ws, 1, d) \o "]"
    [] g.k = "vs" -> IF g.b = 0 THEN "nil" ELSE "[" \o ShowWs(S, g.ws, 1, d) \o "]"
    [] OTHER -> ""
ShowFs(S, f, i, first, d) ==
  IF i > Len(f) THEN ""
  ELSE IF f[i].k = "hid" THEN ShowFs(S, f, i + 1, first, d)
  ELSE (IF first THEN "" ELSE ";") \o ShowF(S, f[i], d) \o ShowFs(S, f, i + 1, FALSE, d)
Show(S, w, d) == IF d < 0 THEN "..." ELSE "{" \o (IF S.go[w].ref = 0 THEN "-" ELSE "+") \o ShowFs(S, S.go[w].f, 1, TRUE, d) \o "}"

(* ------------------------------------------------------------ what C sees *)
(* A sequence of looks [c, path, r], with the block for a state.  *)
State(S, b) == IF S.mem[b].kind = "in" THEN "*" ELSE IF S.mem[b].kind = "heap" THEN IF S.mem[b].live THEN "heap" ELSE "freed" ELSE IF S.mem[b].kind = "temp" THEN "*" ELSE "other"
Look(c, path, r, b) == <<[c |-> c, path |-> path, r |-> r, b |-> b]>>
RECURSIVE Looks(_, _, _, _, _, _), Elems(_, _, _, _, _, _)
Elems(lay, S, arr, path, j, d) ==
  IF j > Len(S.mem[arr].cells) THEN <<>>
  ELSE LET c == S.mem[arr].cells[j]
           at == Append(path, j - 1)
       IN (IF c.k = "s" THEN Look("read", at, c.v, 0)
           ELSE IF c.k = "in" THEN Looks(lay, S, c.b, at, 1, d)
           ELSE IF c.b = 0 THEN Look("null", at, "null", 0) ELSE Look("text", at, S.mem[c.b].cells[1].v, 0) \o Look("state", at, State(S, c.b), c.b))
          \o Elems(lay, S, arr, path, j + 1, d)
Looks(lay, S, b, path, i, d) ==
  IF i > Len(S.mem[b].cells) THEN <<>>
  ELSE LET c == S.mem[b].cells[i]
           k == lay.types[S.mem[b].t][i].k
           at == Append(path, i)
       IN (CASE k \in {"v", "len", "hid"} -> Look("read", at, c.v, 0)
             [] k = "val" -> Looks(lay, S, c.b, at, 1, d)
             [] k = "va" -> Elems(lay, S, c.b, at, 1, d)
             [] OTHER -> IF c.b = 0 THEN Look("null", at, "null", 0)
                         ELSE Look("state", at, State(S, c.b), c.b) \o
                              (CASE k = "str" -> Look("text", at, S.mem[c.b].cells[1].v, 0)
                                 [] k = "ref" -> IF d = 0 THEN <<>> ELSE Looks(lay, S, c.b, at, 1, d - 1)
                                 [] OTHER -> Elems(lay, S, c.b, at, 1, d)))
          \o Looks(lay, S, b, path, i + 1, d)
=============================================================================
