---------------------------- MODULE MCCallsPar ----------------------------
(* Two calls at once, on two threads, in any interleaving of their steps, over   *)
(* one memory: the first call's arguments are in blocks 1 to 4, the second's in  *)
(* blocks 5 to 8, and 9 and 10 are C's.  Each call is as it is alone.            *)
EXTENDS Strings, Sequences
VARIABLES heap, x1, pc1, k1, cargs1, ci1, log1, ret1, x2, pc2, k2, cargs2, ci2, log2, ret2
own1 == <<x1, pc1, k1, cargs1, ci1, log1, ret1>>
own2 == <<x2, pc2, k2, cargs2, ci2, log2, ret2>>
vars == <<heap, own1, own2>>
A == INSTANCE Calls WITH x <- x1, pc <- pc1, k <- k1, cargs <- cargs1, ci <- ci1, log <- log1, ret <- ret1
B == INSTANCE Calls WITH x <- x2, pc <- pc2, k <- k2, cargs <- cargs2, ci <- ci2, log <- log2, ret <- ret2

Scalar(v) == A!Scalar(v)
Sl(b, o, n) == [k |-> "sl", v |-> "", b |-> b, o |-> o, n |-> n]
Str(v) == [k |-> "str", v |-> v, b |-> 0, o |-> 0, n |-> 0]
Part(q) == << <<Scalar("1"), Scalar("2"), Scalar("3")>>, <<Sl(q + 1, 0, 2), Sl(q + 1, 2, 1), Sl(0, 0, 0)>>,
              <<Sl(q + 2, 0, 2), Sl(q + 2, 2, 1)>>, <<Str("61"), Str("6100")>> >>
H == Part(0) \o Part(4) \o << <<Scalar("7"), Scalar("8")>>, <<Scalar("7a")>> >>
Shapes(q) == {<<<<"str">>, Str("62")>>, <<<<"S", "v">>, Sl(q + 1, 0, 3)>>, <<<<"P", "v">>, Sl(q + 1, 1, 1)>>, <<<<"S", "S", "v">>, Sl(q + 2, 0, 3)>>,
              <<<<"S", "P", "v">>, Sl(q + 2, 1, 1)>>, <<<<"S", "str">>, Sl(q + 4, 0, 2)>>, <<<<"S", "S", "S", "v">>, Sl(q + 3, 0, 2)>>}
RECURSIVE Places(_, _, _)
Places(ty, c, at) ==
  IF Len(ty) = 1 \/ c.b = 0 THEN {}
  ELSE UNION {LET here == Append(at, j)
                  cell == H[c.b][c.o + j + 1]
                  rest == Tail(ty)
              IN IF rest = <<"v">> THEN {[path |-> here, cell |-> Scalar("9")]}
                 ELSE IF rest = <<"str">> THEN {[path |-> here, cell |-> A!Ptr(10, 0)]}
                 ELSE (IF rest = <<"P", "v">> \/ rest = <<"S", "v">> THEN {[path |-> here, cell |-> A!Ptr(9, 0)]} ELSE {}) \cup Places(rest, cell, here)
              : j \in 0..(c.n - 1)}
Cmds(s) == {<<>>} \cup {<<[op |-> "write", arg |-> 1, path |-> w.path, cell |-> w.cell]>> : w \in Places(s[1], s[2], <<>>)}
In(s, w) == [types |-> <<s[1]>>, args |-> <<s[2]>>, heap |-> H, cmds |-> w, ret |-> [type |-> <<>>, cell |-> A!Null, n |-> 0]]
Init == \E s \in Shapes(0), t \in Shapes(4) : \E v \in Cmds(s), w \in Cmds(t) : A!InitWith(In(s, v)) /\ B!InitWith(In(t, w))
Next == (A!Next /\ UNCHANGED own2) \/ (B!Next /\ UNCHANGED own1)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE CShow(_, _, _, _), CShowAll(_, _, _, _, _)
CShow(ty, g, c, h) ==
  IF Len(ty) = 1 THEN IF ty[1] = "str" THEN IF c.b = 0 THEN "" ELSE h[c.b][c.o + 1].v ELSE c.v
  ELSE IF c.b = 0 THEN "nil"
  ELSE "[" \o CShowAll(Tail(ty), g, c, h, 1) \o "]"
CShowAll(ty, g, c, h, j) ==
  IF j > g.n THEN ""
  ELSE (IF j > 1 THEN "," ELSE "") \o CShow(ty, h[g.b][g.o + j], h[c.b][c.o + j], h) \o CShowAll(ty, g, c, h, j + 1)
Cut(ty, c, h) == A!Show(ty, c, [b \in DOMAIN h |-> [j \in DOMAIN h[b] |-> IF h[b][j].k = "str" THEN [h[b][j] EXCEPT !.v = A!CText(@)] ELSE h[b][j]]])
(* C is given what Go has, whatever the other call has done so far; ... *)
Faithful ==
  /\ (pc1 = "c" /\ ci1 = 1) => CShow(x1.types[1], x1.args[1], cargs1[1], heap) = Cut(x1.types[1], x1.args[1], H)
  /\ (pc2 = "c" /\ ci2 = 1) => CShow(x2.types[1], x2.args[1], cargs2[1], heap) = Cut(x2.types[1], x2.args[1], H)
(* ... what C left is what Go has; ... *)
Transparent ==
  /\ pc1 = "done" => CShow(x1.types[1], x1.args[1], cargs1[1], heap) = A!Show(x1.types[1], x1.args[1], heap)
  /\ pc2 = "done" => CShow(x2.types[1], x2.args[1], cargs2[1], heap) = A!Show(x2.types[1], x2.args[1], heap)
(* ... and no call touches what is the other's. *)
Apart ==
  /\ (pc2 = "pass" /\ k2 = 1) => \A b \in 5..8 : heap[b] = H[b]
  /\ (pc1 = "pass" /\ k1 = 1) => \A b \in 1..4 : heap[b] = H[b]
Terminates == <>(pc1 = "done" /\ pc2 = "done")
=============================================================================
