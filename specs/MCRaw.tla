------------------------------- MODULE MCRaw -------------------------------
(* RawStructs.tla on its own: every short program over two raw types, one      *)
(* inside the other, with a pointer to its own type.                           *)
EXTENDS RawStructs
CONSTANTS Steps
VARIABLES S, n, news, frees, touched
vars == <<S, n, news, frees, touched>>

Leaf(k, m, t) == [k |-> k, t |-> t, n |-> 1, m |-> m]
T == << <<Leaf("v", 1, 0)>>, <<Leaf("v", 1, 0), Leaf("p", 0, 2), Leaf("r", 0, 1)>> >>

Init ==
  /\ S = [mem |-> <<[t |-> 2, kind |-> "static", live |-> TRUE, f |-> Zeros(T, 2)]>>, vars |-> <<>>, holds |-> <<>>]
  /\ n = 0 /\ news = 0 /\ frees = 0 /\ touched = {}

Live == LiveVars(S)
Ty(v) == S.vars[v].t
Obj(v) == S.vars[v].o
Values(l) == IF l.k = "p" THEN {Nil, At(1, <<>>)} ELSE {Tok(0), Tok(1)}
Ws(t) == {<<>>} \cup UNION {{<<[path |-> l.path, x |-> x]>> : x \in Values(l)} : l \in {LeafSeq(T, t)[j] : j \in DOMAIN LeafSeq(T, t)}}

Step(R, tch) == S' = R /\ touched' = tch /\ n' = n + 1
Keep == UNCHANGED <<news, frees>>
DoNew == \E t \in DOMAIN T : Step(New(T, S, t), {}) /\ news' = news + 1 /\ UNCHANGED frees
DoBack == \E x \in {Nil, At(1, <<>>)} : Step(Back(S, 2, x), {}) /\ Keep
DoSub == \E v \in Live : Ty(v) = 2 /\ Step(Sub(T, S, v, 3), {}) /\ Keep
DoFollow == \E v \in Live : Ty(v) = 2 /\ Fine(S, Get(S, Obj(v), S.vars[v].p \o <<2>>)) /\ Step(Follow(T, S, v, 2), {}) /\ Keep
DoStore == \E v \in Live, b \in 0..1 : Step(Store(S, v, 1, Tok(b)), {Obj(v)}) /\ Keep
DoLink == \E v, u \in Live : Ty(v) = 2 /\ Ty(u) = 2 /\ CMem(S, S.vars[u]) /\ Step(Store(S, v, 2, At(Obj(u), S.vars[u].p)), {Obj(v)}) /\ Keep
DoCall == \E v \in Live : \E ws \in Ws(Ty(v)) : Step(Call(S, v, ws), {Obj(v)}) /\ Keep
DoCallV == \E v \in Live : \E ws \in Ws(Ty(v)) : Step(CallV(T, S, v, ws), {}) /\ Keep
DoSlice == \E v \in Live : Step(Slice(T, S, <<v, v>>), {}) /\ Keep
DoAssign == \E v, u \in Live : v # u /\ Ty(v) = Ty(u) /\ Step(Assign(T, S, v, u), {Obj(v)}) /\ Keep
DoFree == \E v \in Live : S.mem[Obj(v)].kind = "heap" /\ S.vars[v].p = <<>> /\ Step(Free(S, v), {}) /\ frees' = frees + 1 /\ UNCHANGED news
Next == n < Steps /\ (DoNew \/ DoBack \/ DoSub \/ DoFollow \/ DoStore \/ DoLink \/ DoCall \/ DoCallV \/ DoSlice \/ DoAssign \/ DoFree)
Spec == Init /\ [][Next]_vars

(* every pointer, in Go or C, is to an object of its type *)
Fits(x, t) == x.o = 0 \/ (x.o \in DOMAIN S.mem /\ x.p \in Places(T, S.mem[x.o].t, t))
Typed ==
  /\ \A v \in DOMAIN S.vars : Fits(S.vars[v], S.vars[v].t)
  /\ \A o \in DOMAIN S.mem : \A j \in DOMAIN LeafSeq(T, S.mem[o].t) :
       LET l == LeafSeq(T, S.mem[o].t)[j] IN l.k = "p" => Fits(S.mem[o].f[l.path], l.t)
(* what New made is given back by Free alone, and Go's own objects never are; C never holds them *)
Accounted == HeapLive(S) = news - frees /\ \A o \in DOMAIN S.mem : S.mem[o].kind # "heap" => S.mem[o].live
NotInC == \A o \in DOMAIN S.mem : \A q \in DOMAIN S.mem[o].f : CMem(S, S.mem[o].f[q])
(* an operation through a pointer changes that object only: copies are copies *)
Local == [][\A o \in DOMAIN S.mem : S'.mem[o].f # S.mem[o].f => o \in touched']_vars
(* and every pointer to it sees the change: two names of a place read the same *)
Shared == \A v, u \in Live : S.vars[v] = S.vars[u] => Part(T, S, Obj(v), S.vars[v].p, Ty(v)) = Part(T, S, Obj(u), S.vars[u].p, Ty(u))
Fresh == [][\A o \in DOMAIN S'.mem : o \notin DOMAIN S.mem /\ S'.mem[o].kind = "heap" => S'.mem[o].f = Zeros(T, S'.mem[o].t)]_vars
=============================================================================
