------------------------------ MODULE Surface -----------------------------
(* What a generated package offers for every type besides the type itself:     *)
(* a machine that goes over the accepted types and writes the functions and    *)
(* methods which lead from a Go value to its C object and back. A type:        *)
(*   [name, go, cgo   the C name, the Go name, the name under which cgo knows  *)
(*                    the C type                                               *)
(*    kind            struct, union, cb (callback), other                      *)
(*    complete, raw   a struct whose members are known / that stays a C type   *)
(*    ptr             the typedef is for a pointer                             *)
(*    members]        <<[name |-> Go name, skip |-> no accessor]>>             *)
(* Every entry: [of |-> who it belongs to, n |-> its name, ins, outs].         *)
(* A callback has a C function that can be passed for it, which calls a Go     *)
(* function, which calls what a variable holds; all three are named after the  *)
(* callback with the same mark, for which # stands here.                       *)
EXTENDS Strings

E(of, n, ins, outs) == [of |-> of, n |-> n, ins |-> ins, outs |-> outs]

Wraps(t) == t.kind = "struct" /\ t.complete /\ ~t.raw
StaysC(t) == t.kind = "struct" /\ ~Wraps(t)

Low(s) == Uncapital(s)

ForWrapper(t) ==
  LET p == "*" \o t.go   c == "C." \o t.cgo IN
  { E(p, "Ref", <<>>, <<"*" \o c>>), E(p, "Free", <<>>, <<>>), E(p, "Deref", <<>>, <<>>),
    E("", "New" \o t.go \o "Ref", <<"unsafe.Pointer">>, <<p>>),
    E(p, "PassRef", <<>>, <<"*" \o c, "*cgoAllocMap">>), E(t.go, "PassValue", <<>>, <<c, "*cgoAllocMap">>) }

ForRaw(t, accessors) ==
  LET p == "*" \o t.go   c == "C." \o t.cgo IN
  { E(p, "Ref", <<>>, <<"*" \o c>>), E(p, "Free", <<>>, <<>>),
    E("", "New" \o t.go \o "Ref", <<"unsafe.Pointer">>, <<p>>), E("", "New" \o t.go, <<>>, <<p>>),
    E(p, "PassRef", <<>>, <<"*" \o c>>) }
  \cup (IF accessors THEN { E(p, "Get" \o t.members[j].name, <<>>, <<"?">>) : j \in {k \in DOMAIN t.members : ~t.members[k].skip} } ELSE {})

ForCallback(t) ==
  LET c == "C." \o t.cgo IN
  { E(t.go, "PassRef", <<>>, <<"*" \o c, "*cgoAllocMap">>),
    E("", "New" \o t.go \o "Ref", <<"unsafe.Pointer">>, <<"*" \o t.go>>),
    E("export", Low(t.go) \o "#", <<>>, <<>>),          \* called by the C function
    E("var", Low(t.go) \o "#Func", <<t.go>>, <<>>),     \* what it calls
    E("declared", t.name \o "_#", <<>>, <<>>), E("defined", t.name \o "_#", <<>>, <<>>) }
  \cup (IF t.ptr THEN {E(t.go, "PassValue", <<>>, <<c, "*cgoAllocMap">>)} ELSE {})

ForUnion(t) == { E("const", "sizeof" \o t.go, <<>>, <<>>) }

Offers(t, accessors) ==
  IF Wraps(t) THEN ForWrapper(t)
  ELSE IF StaysC(t) THEN (IF t.ptr THEN {} ELSE ForRaw(t, accessors))
  ELSE IF t.kind = "cb" THEN ForCallback(t)
  ELSE IF t.kind = "union" THEN ForUnion(t)
  ELSE {}

(* One step: the next type. A type that was written already under this Go name *)
(* is not written again.                                                       *)
SurfaceStep(t, accessors, api) == api \cup Offers(t, accessors)

(* How values get into C: every type that has a C object of its own can be     *)
(* passed, whoever can be got from C has a constructor from a C pointer.       *)
Passable(t, api) == \E e \in api : e.of \in {t.go, "*" \o t.go} /\ e.n = "PassRef"
Readable(t, api) == \E e \in api : e.n = "New" \o t.go \o "Ref"
Freeable(t, api) == \E e \in api : e.of = "*" \o t.go /\ e.n = "Free"
=============================================================================
