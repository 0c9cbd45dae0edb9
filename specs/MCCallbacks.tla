----------------------------- MODULE MCCallbacks -----------------------------
(* Two callback types, two functions of the first and one of the second, and     *)
(* every history of up to MaxEvents registrations and calls, the functions       *)
(* themselves registering, calling and writing in every combination of bodies.   *)
EXTENDS Callbacks, TLC
CONSTANT MaxEvents
Sc(v) == [k |-> "s", v |-> v, b |-> 0, o |-> 0, n |-> 0]
P(b, o, n) == [k |-> "p", v |-> "", b |-> b, o |-> o, n |-> n]
H == << <<Sc("1"), Sc("2"), Sc("3")>> >>
Calls == << [t |-> 1, args |-> <<P(1, 0, 2)>>], [t |-> 2, args |-> <<>>] >>
Reg(t, s, f) == [op |-> "reg", regs |-> <<[t |-> t, slot |-> s, fn |-> f]>>]
Fire_(n, s) == [op |-> "fire", n |-> n, slot |-> s]
Events == {Reg(1, 1, 1), Reg(1, 2, 2), Reg(1, 1, 0), Reg(2, 1, 3), Fire_(1, 1), Fire_(1, 2), Fire_(2, 1),
           [op |-> "same", t |-> 1, slot |-> 1, slot2 |-> 2],
           [op |-> "reg", regs |-> <<[t |-> 1, slot |-> 1, fn |-> 2], [t |-> 1, slot |-> 2, fn |-> 1]>>]}
W == [op |-> "write", p |-> 1, j |-> 2, cell |-> Sc("9")]
See == [op |-> "see", p |-> 1, j |-> 2]
B1 == {<<>>, << <<W, Fire_(2, 1), See>> >>, << <<Reg(1, 1, 0), Fire_(1, 1)>>, <<W>> >>, << <<Reg(2, 1, 3), Fire_(1, 2), See>> >>}
B3 == {<<>>, << <<Fire_(1, 1)>> >>, << <<Reg(1, 2, 2), Fire_(1, 2)>>, <<Fire_(2, 1)>> >>}
Fn(t, bs, r) == [t |-> t, bodies |-> [k \in 1..Len(bs) |-> [acts |-> bs[k], ret |-> r]], dflt |-> Sc("0")]
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Init == \E ev \in Seqs(Events, MaxEvents), b1, b2 \in B1, b3 \in B3 :
          InitWith([params |-> <<<<"sl">>, <<>>>>, res |-> <<"v", "">>, nslots |-> 2, calls |-> Calls, heap |-> H, events |-> ev,
                    funcs |-> <<Fn(1, b1, Sc("5")), Fn(1, b2, P(1, 1, 1)), Fn(2, b3, Sc(""))>>])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* A call reaches the one function of its type. *)
Reaches == \A k \in 1..Len(stack) : LET t == x.calls[stack[k].n].t IN stack[k].f = chosen[t] /\ x.funcs[stack[k].f].t = t
(* C holds a pointer only if there is a function behind it. *)
Behind == \A t \in 1..2 : (\E s \in 1..2 : slots[t][s]) => chosen[t] # 0
(* Every call of a function comes back to C once, the inner ones first. *)
RECURSIVE Open(_, _)
Open(l, j) == IF j > Len(l) THEN 0 ELSE (IF l[j] \in {"f1", "f2", "f3"} THEN 1 ELSE IF l[j] \in {"ret", "back"} THEN -1 ELSE 0) + Open(l, j + 1)
Bracketed == Open(log, 1) = Len(stack)
(* The first function of a type stays; the log only grows. *)
Stays == [][(\A t \in 1..2 : chosen[t] # 0 => chosen'[t] = chosen[t]) /\ SubSeq(log', 1, Len(log)) = log]_vars
(* Only functions change C's memory here. *)
WritersOnly == [][mem' # mem => stack # <<>>]_vars
Terminates == <>Done
=============================================================================
