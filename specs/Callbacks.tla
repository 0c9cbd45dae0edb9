------------------------------ MODULE Callbacks ------------------------------
(* Go functions handed to C as callbacks: which function a call from C reaches,  *)
(* what it is given, what C gets back.                                           *)
(*                                                                               *)
(* x: a package and what happens in it:                                          *)
(*   funcs   function f: [t, bodies]: its callback type, and for its first,      *)
(*           second, ... call [acts, ret]; later calls do nothing and return     *)
(*           dflt                                                                *)
(*   calls   call n that C can make: [t, args], the arguments being cells        *)
(*   params  the kinds of the parameters of type t; res its kind of result       *)
(*   heap    C's memory: blocks of cells; cells are as in Calls: "s" a scalar,   *)
(*           "p" a pointer to n cells of block b after o (b = 0 for NULL)        *)
(*   events  what the Go program does                                            *)
(* Actions (of the program or of a function called from C):                      *)
(*   reg  [regs]: one call to C that stores callbacks, regs: [t, slot, fn] in    *)
(*        order, fn = 0 for nil                                                  *)
(*   fire [n, slot]: makes C make call n of what is stored in the slot           *)
(*   par  [fires]: makes C make several calls at once, each on a thread; the      *)
(*        functions only look at what they are given and return dflt             *)
(*   same [t, slot, slot2]: C says if both slots hold the same pointer           *)
(*   write [p, j, cell] / see [p, j]: the function writes to / reads from what   *)
(*        its parameter p points to                                              *)
(* Kinds: "v" scalars and handles, "str" strings, "sl" slices and pointers of    *)
(* plain types, "st" pointers to structs, "sv" structs by value.                 *)
EXTENDS Strings, Sequences

VARIABLES x, ei, chosen, slots, mem, stack, calls, log
vars == <<x, ei, chosen, slots, mem, stack, calls, log>>

RECURSIVE UpToZero(_, _)
UpToZero(h, i) == IF i > Len(h) THEN h ELSE IF SubSeq(h, i, i + 1) = "00" THEN SubSeq(h, 1, i - 1) ELSE UpToZero(h, i + 2)

Id(c) == IF c.b = 0 THEN "nil" ELSE "b" \o NatStr(c.b)
Leaf(c) == IF c.k = "p" THEN Id(c) ELSE c.v
RECURSIVE Cells(_, _, _)
Cells(c, m, j) == IF j > c.n THEN "" ELSE (IF j > 1 THEN "," ELSE "") \o Leaf(m[c.b][c.o + j]) \o Cells(c, m, j + 1)
Shown(kind, c, m) ==
  CASE kind = "v" -> Leaf(c)
    [] kind = "str" -> IF c.b = 0 THEN "" ELSE UpToZero(m[c.b][1].v, 1)
    [] kind = "sl" -> IF c.b = 0 THEN "nil" ELSE "[" \o Cells(c, m, 1) \o "]"
    [] OTHER -> IF c.b = 0 THEN "nil" ELSE "{" \o Cells(c, m, 1) \o "}"
RECURSIVE Args(_, _, _, _)
Args(kinds, cs, m, j) == IF j > Len(kinds) THEN <<>> ELSE <<Shown(kinds[j], cs[j], m)>> \o Args(kinds, cs, m, j + 1)
(* what C's memory says that the function could have changed *)
RECURSIVE Left(_, _, _, _)
Left(kinds, cs, m, j) ==
  IF j > Len(kinds) THEN <<>>
  ELSE (IF kinds[j] \in {"sl", "st"} THEN <<Shown(kinds[j], cs[j], m)>> ELSE <<>>) \o Left(kinds, cs, m, j + 1)

InitWith(in) ==
  /\ x = in /\ ei = 1 /\ mem = in.heap /\ stack = <<>> /\ log = <<>>
  /\ chosen = [t \in 1..Len(in.params) |-> 0]
  /\ slots = [t \in 1..Len(in.params) |-> [s \in 1..in.nslots |-> FALSE]]
  /\ calls = [f \in 1..Len(in.funcs) |-> 0]

(* One call that hands callbacks to C.  C is given the same pointer for every    *)
(* function of a type and NULL for nil; the first function that was ever handed  *)
(* over is the one all calls of the type reach.                                  *)
RECURSIVE Choose(_, _), Store(_, _)
Choose(regs, ch) ==
  IF regs = <<>> THEN ch
  ELSE LET r == Head(regs) IN Choose(Tail(regs), IF r.fn # 0 /\ ch[r.t] = 0 THEN [ch EXCEPT ![r.t] = r.fn] ELSE ch)
Store(regs, sl) == IF regs = <<>> THEN sl ELSE LET r == Head(regs) IN Store(Tail(regs), [sl EXCEPT ![r.t][r.slot] = r.fn # 0])

Do(a) ==
  CASE a.op = "reg" ->
         /\ chosen' = Choose(a.regs, chosen) /\ slots' = Store(a.regs, slots)
         /\ UNCHANGED <<mem, calls, log>>
    [] a.op = "same" ->
         /\ log' = Append(log, IF slots[a.t][a.slot] = slots[a.t][a.slot2] THEN "same" ELSE "other")
         /\ UNCHANGED <<chosen, slots, mem, calls>>
    [] a.op = "write" ->
         /\ LET c == stack[Len(stack)].args[a.p] IN mem' = [mem EXCEPT ![c.b][c.o + a.j] = a.cell]
         /\ UNCHANGED <<chosen, slots, calls, log>>
    [] a.op = "see" ->
         /\ LET c == stack[Len(stack)].args[a.p] IN log' = Append(log, Leaf(mem[c.b][c.o + a.j]))
         /\ UNCHANGED <<chosen, slots, mem, calls>>

(* C makes call n *)
Fired(a) ==
  LET call == x.calls[a.n]
      f == chosen[call.t]
  IN IF ~slots[call.t][a.slot]
     THEN [frames |-> <<>>, logged |-> <<"null">>]
     ELSE [frames |-> <<[n |-> a.n, f |-> f, pc |-> 1, args |-> call.args, body |-> IF calls[f] < Len(x.funcs[f].bodies) THEN x.funcs[f].bodies[calls[f] + 1] ELSE [acts |-> <<>>, ret |-> x.funcs[f].dflt]]>>,
           logged |-> <<"f" \o NatStr(f)>> \o Args(x.params[call.t], call.args, mem, 1)]
Fire(a) ==
  LET r == Fired(a)
  IN /\ stack' = stack \o r.frames /\ log' = log \o r.logged
     /\ calls' = IF r.frames = <<>> THEN calls ELSE [calls EXCEPT ![r.frames[1].f] = @ + 1]
     /\ UNCHANGED <<chosen, slots, mem>>

(* Calls that C makes at once, none of which changes anything: what each thread  *)
(* says is what it would say alone.                                              *)
Answer(n, ret) ==
  LET t == x.calls[n].t
  IN (IF x.res[t] = "" THEN <<"back">> ELSE <<"ret", Shown(x.res[t], ret, mem)>>) \o Left(x.params[t], x.calls[n].args, mem, 1)
RECURSIVE AtOnce(_)
AtOnce(fires) ==
  IF fires = <<>> THEN <<>>
  ELSE LET r == Fired(Head(fires))
       IN r.logged \o (IF r.frames = <<>> THEN <<>> ELSE Answer(Head(fires).n, x.funcs[r.frames[1].f].dflt)) \o AtOnce(Tail(fires))

Event ==
  /\ stack = <<>> /\ ei <= Len(x.events) /\ ei' = ei + 1
  /\ IF x.events[ei].op = "fire" THEN Fire(x.events[ei])
     ELSE IF x.events[ei].op = "par" THEN log' = log \o AtOnce(x.events[ei].fires) /\ UNCHANGED <<chosen, slots, mem, calls, stack>>
     ELSE Do(x.events[ei]) /\ UNCHANGED stack
  /\ UNCHANGED x
Top == stack[Len(stack)]
Act ==
  /\ stack # <<>> /\ Top.pc <= Len(Top.body.acts)
  /\ LET a == Top.body.acts[Top.pc]
         under == [stack EXCEPT ![Len(stack)].pc = @ + 1]
     IN IF a.op = "fire"
        THEN LET r == Fired(a)
             IN /\ stack' = under \o r.frames /\ log' = log \o r.logged
                /\ calls' = IF r.frames = <<>> THEN calls ELSE [calls EXCEPT ![r.frames[1].f] = @ + 1]
                /\ UNCHANGED <<chosen, slots, mem>>
        ELSE Do(a) /\ stack' = under
  /\ UNCHANGED <<x, ei>>
(* what the function returns is what C gets; C looks at its memory then *)
Return ==
  /\ stack # <<>> /\ Top.pc > Len(Top.body.acts)
  /\ log' = log \o Answer(Top.n, Top.body.ret)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED <<x, ei, chosen, slots, mem, calls>>

Next == Event \/ Act \/ Return
Done == stack = <<>> /\ ei > Len(x.events)
=============================================================================
