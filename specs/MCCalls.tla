------------------------------ MODULE MCCalls ------------------------------
(* Calls with two arguments of every shape of up to three levels over a small    *)
(* memory, shared or not, and every one or two writes that C can do.             *)
EXTENDS Calls
Sl(b, o, n) == [k |-> "sl", v |-> "", b |-> b, o |-> o, n |-> n]
Str(v) == [k |-> "str", v |-> v, b |-> 0, o |-> 0, n |-> 0]
H == << <<Scalar("1"), Scalar("2"), Scalar("3")>>,        \* 1: scalars of Go
        <<Sl(1, 0, 2), Sl(1, 2, 1), Sl(0, 0, 0)>>,         \* 2: slices of these
        <<Sl(2, 0, 2), Sl(2, 2, 1), Sl(2, 1, 0)>>,         \* 3: slices of slices
        <<Str("61"), Str(""), Str("6100")>>,               \* 4: strings
        <<Scalar("7"), Scalar("8")>>,                      \* 5: scalars of C
        <<Scalar("7a")>> >>                                \* 6: text of C
Shapes == {<<<<"v">>, Scalar("5")>>, <<<<"str">>, Str("62")>>, <<<<"S", "v">>, Sl(1, 0, 3)>>, <<<<"S", "v">>, Sl(1, 1, 2)>>, <<<<"P", "v">>, Sl(1, 1, 1)>>,
           <<<<"S", "v">>, Sl(0, 0, 0)>>, <<<<"S", "S", "v">>, Sl(2, 0, 3)>>, <<<<"S", "S", "v">>, Sl(2, 1, 2)>>, <<<<"S", "P", "v">>, Sl(2, 1, 1)>>,
           <<<<"S", "str">>, Sl(4, 0, 3)>>, <<<<"S", "str">>, Sl(4, 1, 0)>>, <<<<"S", "S", "S", "v">>, Sl(3, 0, 3)>>, <<<<"S", "S", "S", "v">>, Sl(3, 1, 2)>>}
(* all places C can write to and what it can write there *)
RECURSIVE Places(_, _, _)
Places(ty, c, at) ==
  IF Len(ty) = 1 \/ c.b = 0 THEN {}
  ELSE UNION {LET here == Append(at, j)
                  cell == H[c.b][c.o + j + 1]
                  rest == Tail(ty)
              IN IF rest = <<"v">> THEN {[path |-> here, cell |-> Scalar("9")]}
                 ELSE IF rest = <<"str">> THEN {[path |-> here, cell |-> Ptr(6, 0)], [path |-> here, cell |-> Null]}
                 ELSE (IF rest = <<"P", "v">> \/ rest = <<"S", "v">> THEN {[path |-> here, cell |-> Ptr(5, 0)]} ELSE {}) \cup Places(rest, cell, here)
              : j \in 0..(c.n - 1)}
Writes(s, a) == {[op |-> "write", arg |-> a, path |-> w.path, cell |-> w.cell] : w \in Places(s[1], s[2], <<>>)}
Init ==
  \E s, t \in Shapes :
    \E w \in {<<>>} \cup {<<m>> : m \in Writes(s, 1) \cup Writes(t, 2)} \cup {<<m, l>> : m \in Writes(s, 1), l \in Writes(t, 2)} :
      InitWith([types |-> <<s[1], t[1]>>, args |-> <<s[2], t[2]>>, heap |-> H, cmds |-> w, ret |-> [type |-> <<>>, cell |-> Null, n |-> 0]])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* What C sees of an argument, as Go would show it. *)
RECURSIVE CShow(_, _, _, _), CShowAll(_, _, _, _, _)
CShow(ty, g, c, h) ==
  IF Len(ty) = 1 THEN IF ty[1] = "str" THEN IF c.b = 0 THEN "" ELSE h[c.b][c.o + 1].v ELSE c.v
  ELSE IF c.b = 0 THEN "nil"
  ELSE "[" \o CShowAll(Tail(ty), g, c, h, 1) \o "]"
CShowAll(ty, g, c, h, j) ==
  IF j > g.n THEN ""
  ELSE (IF j > 1 THEN "," ELSE "") \o CShow(ty, h[g.b][g.o + j], h[c.b][c.o + j], h) \o CShowAll(ty, g, c, h, j + 1)
ShowC(j) == CShow(x.types[j], x.args[j], cargs[j], heap)
Cut(ty, c, h) == Show(ty, c, [b \in DOMAIN h |-> [j \in DOMAIN h[b] |-> IF h[b][j].k = "str" THEN [h[b][j] EXCEPT !.v = CText(@)] ELSE h[b][j]]])

(* C is given what Go has; ... *)
Faithful == (pc = "c" /\ ci = 1) => \A j \in 1..2 : ShowC(j) = Cut(x.types[j], x.args[j], x.heap)
(* ... a call that writes nothing changes nothing that C can see; ... *)
Harmless == (pc = "done" /\ x.cmds = <<>>) => \A j \in 1..2 : Cut(x.types[j], x.args[j], heap) = Cut(x.types[j], x.args[j], x.heap)
(* ... and what C left is what Go has (two arguments that share memory may have  *)
(* been given pointers of their own, of which the first argument's win).         *)
Nested(j) == Len(x.types[j]) > 2 \/ x.types[j] = <<"S", "str">>
Transparent == (pc = "done" /\ ~(Nested(1) /\ Nested(2))) => \A j \in 1..2 : ShowC(j) = Show(x.types[j], x.args[j], heap)
(* the caller's own arguments never change *)
ArgsStay == [][x' = x]_vars
Terminates == <>(pc = "done")
=============================================================================
