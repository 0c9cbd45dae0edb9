------------------------------- MODULE Calls -------------------------------
(* A call from Go to C through a generated function: what C is given, what Go    *)
(* has afterwards.                                                               *)
(*                                                                               *)
(* Memory is a sequence of blocks, a block a sequence of cells.  A cell is       *)
(* [k, v, b, o, n]:                                                              *)
(*   "s"    a scalar (or union) with value v                                     *)
(*   "str"  a Go string with bytes v (in hex)                                    *)
(*   "sl"   a Go slice (or, with n = 1, a Go pointer): n cells of block b after  *)
(*          o; b = 0 for nil                                                     *)
(*   "p"    a C pointer to cell o of block b; b = 0 for NULL                     *)
(* The characters of a C string are one cell.  A type is a sequence of levels    *)
(* "S" (slice) and "P" (pointer) and, at its end, "v" (anything passed as it     *)
(* is) or "str".                                                                 *)
(*                                                                               *)
(* x: [types, args, heap, cmds, ret].  The C function's commands are             *)
(*   [op, arg, path, cell]: read, isnull, text, write (the cell), same (as       *)
(*   argument path[1]); ret: [type, cell, n], n elements to be looked at.        *)
EXTENDS Strings, Sequences

VARIABLES x, pc, k, heap, cargs, ci, log, ret
vars == <<x, pc, k, heap, cargs, ci, log, ret>>

Ptr(b, o) == [k |-> "p", v |-> "", b |-> b, o |-> o, n |-> 0]
Null == Ptr(0, 0)
Scalar(v) == [k |-> "s", v |-> v, b |-> 0, o |-> 0, n |-> 0]

(* the bytes before the first zero byte *)
RECURSIVE UpToZero(_, _)
UpToZero(h, i) == IF i > Len(h) THEN h ELSE IF SubSeq(h, i, i + 1) = "00" THEN SubSeq(h, 1, i - 1) ELSE UpToZero(h, i + 2)
CText(h) == UpToZero(h, 1)

(* Passed as it is, without another memory in between. *)
Direct(ty) == Len(ty) = 2 /\ ty[2] # "str"

(* ------------------------------------------------------------ marshalling *)
(* Returns the cell for C and the memory: strings are copied, the outer levels   *)
(* of nested slices become arrays of pointers in C, the innermost level stays    *)
(* Go's own memory.                                                              *)
RECURSIVE Pass(_, _, _), PassAll(_, _, _, _)
Pass(ty, c, h) ==
  IF Len(ty) = 1
  THEN IF ty[1] = "str" THEN [c |-> Ptr(Len(h) + 1, 0), h |-> Append(h, <<Scalar(CText(c.v))>>)]
       ELSE [c |-> c, h |-> h]
  ELSE IF c.b = 0 THEN [c |-> Null, h |-> h]
  ELSE IF Direct(ty) THEN [c |-> Ptr(c.b, c.o), h |-> h]
  ELSE LET r == PassAll(Tail(ty), [j \in 1..c.n |-> h[c.b][c.o + j]], h, <<>>)
       IN [c |-> Ptr(Len(r.h) + 1, 0), h |-> Append(r.h, r.cs)]
PassAll(ty, cs, h, done) ==
  IF cs = <<>> THEN [cs |-> done, h |-> h]
  ELSE LET r == Pass(ty, Head(cs), h) IN PassAll(ty, Tail(cs), r.h, Append(done, r.c))

(* After the call the pointers that C left in its arrays become Go's. *)
RECURSIVE Back(_, _, _, _), BackAll(_, _, _, _, _)
Back(ty, g, c, h) ==   \* the Go cell g of type ty, now that C has c for it
  IF Len(ty) = 1
  THEN [c |-> IF ty[1] = "str" THEN [g EXCEPT !.v = IF c.b = 0 THEN "" ELSE CText(h[c.b][c.o + 1].v)] ELSE g, h |-> h]
  ELSE IF Direct(ty) THEN [c |-> [g EXCEPT !.b = c.b, !.o = c.o], h |-> h]
  ELSE [c |-> g, h |-> BackAll(ty, g, c, h, 1)]
BackAll(ty, g, c, h, j) ==
  IF j > g.n THEN h
  ELSE LET r == Back(Tail(ty), h[g.b][g.o + j], h[c.b][c.o + j], h)
       IN BackAll(ty, g, c, [r.h EXCEPT ![g.b][g.o + j] = r.c], j + 1)

(* ------------------------------------------------------------ C's commands *)
RECURSIVE At(_, _, _)
At(c, path, h) == IF path = <<>> THEN c ELSE At(h[c.b][c.o + Head(path) + 1], Tail(path), h)
RECURSIVE Set(_, _, _, _)
Set(c, path, new, h) ==
  IF Len(path) = 1 THEN [h EXCEPT ![c.b][c.o + path[1] + 1] = new]
  ELSE Set(h[c.b][c.o + Head(path) + 1], Tail(path), new, h)
Id(c) == IF c.b = 0 THEN "nil" ELSE "b" \o NatStr(c.b)
Seen(cmd) ==
  LET c == At(cargs[cmd.arg], cmd.path, heap)
  IN CASE cmd.op = "read" -> IF c.k = "p" THEN Id(c) ELSE c.v
       [] cmd.op = "isnull" -> IF c.b = 0 THEN "null" ELSE "ptr"
       [] cmd.op = "text" -> IF c.b = 0 THEN "null" ELSE heap[c.b][c.o + 1].v
       [] cmd.op = "same" -> IF cargs[cmd.path[1]] = cargs[cmd.arg] THEN "same" ELSE "other"

(* -------------------------------------------------------------- what is seen *)
RECURSIVE Show(_, _, _), ShowAll(_, _, _, _)
Show(ty, c, h) ==
  IF Len(ty) = 1 THEN IF c.k = "p" THEN Id(c) ELSE c.v
  ELSE IF c.b = 0 THEN "nil"
  ELSE "[" \o ShowAll(Tail(ty), c, h, 1) \o "]"
ShowAll(ty, c, h, j) ==
  IF j > c.n THEN "" ELSE (IF j > 1 THEN "," ELSE "") \o Show(ty, h[c.b][c.o + j], h) \o ShowAll(ty, c, h, j + 1)

(* A returned string is one, a returned pointer is the C memory. *)
Result ==
  IF x.ret.type = <<>> THEN ""
  ELSE IF x.ret.type = <<"str">> THEN IF x.ret.cell.b = 0 THEN "" ELSE CText(heap[x.ret.cell.b][x.ret.cell.o + 1].v)
  ELSE IF Len(x.ret.type) = 1 THEN Show(x.ret.type, x.ret.cell, heap)
  ELSE Show(x.ret.type, [x.ret.cell EXCEPT !.n = x.ret.n], heap)

(* ------------------------------------------------------------------ machine *)
InitWith(in) ==
  /\ x = in /\ pc = "pass" /\ k = 1 /\ heap = in.heap /\ cargs = <<>> /\ ci = 1 /\ log = <<>> /\ ret = ""

PassArg ==
  /\ pc = "pass" /\ k <= Len(x.args)
  /\ LET r == Pass(x.types[k], x.args[k], heap) IN cargs' = Append(cargs, r.c) /\ heap' = r.h
  /\ k' = k + 1 /\ UNCHANGED <<x, pc, ci, log, ret>>
Enter == pc = "pass" /\ k > Len(x.args) /\ pc' = "c" /\ UNCHANGED <<x, k, heap, cargs, ci, log, ret>>

Command ==
  /\ pc = "c" /\ ci <= Len(x.cmds)
  /\ LET cmd == x.cmds[ci]
     IN IF cmd.op = "write"
        THEN heap' = Set(cargs[cmd.arg], cmd.path, cmd.cell, heap) /\ UNCHANGED log
        ELSE log' = Append(log, Seen(cmd)) /\ UNCHANGED heap
  /\ ci' = ci + 1 /\ UNCHANGED <<x, pc, k, cargs, ret>>
Leave == pc = "c" /\ ci > Len(x.cmds) /\ pc' = "back" /\ k' = Len(x.args) /\ ret' = Result /\ UNCHANGED <<x, heap, cargs, ci, log>>

(* in reverse order *)
BackArg ==
  /\ pc = "back" /\ k >= 1
  /\ LET ty == x.types[k]
     IN heap' = IF Len(ty) = 1 \/ x.args[k].b = 0 \/ Direct(ty) THEN heap ELSE BackAll(ty, x.args[k], cargs[k], heap, 1)
  /\ k' = k - 1 /\ UNCHANGED <<x, pc, cargs, ci, log, ret>>
Exit == pc = "back" /\ k = 0 /\ pc' = "done" /\ UNCHANGED <<x, k, heap, cargs, ci, log, ret>>

Next == PassArg \/ Enter \/ Command \/ Leave \/ BackArg \/ Exit
After == [j \in 1..Len(x.args) |-> Show(x.types[j], x.args[j], heap)]
Before == [j \in 1..Len(x.args) |-> Show(x.types[j], x.args[j], x.heap)]
=============================================================================
