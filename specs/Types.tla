------------------------------ MODULE Types ------------------------------
(* Which Go type stands for a C type in signatures, typedefs and struct fields. *)
(*                                                                              *)
(* A C type is [b, p, c, arr]: p pointer levels on b (a builtin type or a name   *)
(* of the header), the pointed-to value const or not, in an array of dimensions  *)
(* arr.  env: a function from names of the header to                             *)
(*   [k, acc, to]   k: alias (of the C type to), struct, opaque, handle (a       *)
(*   typedef of a pointer to an opaque struct), union, enum, callback; acc: a    *)
(*   name that the rules accept.                                                 *)
(* A tip entry is [scope, target, tips, self, dflt]; opts is                     *)
(*   [constchar, constuchar, long64, tmap], tmap the configured type map: a      *)
(*   sequence of [b, p, c, go], the C type b with p pointers, const or not, is   *)
(*   Go's go.                                                                    *)
EXTENDS Rx, FiniteSets

Signed == {"schar", "short", "int", "long", "llong"}
Unsigned == {"uchar", "ushort", "uint", "ulong", "ullong"}
Builtins == Signed \cup Unsigned \cup {"char", "float", "double", "ldouble", "cfloat", "cdouble", "bool", "void"}

(* Integers by width and signedness; long is as wide as the target's. *)
GoScalar(b, opts) ==
  CASE b \in {"char", "uchar"} -> "byte"
    [] b = "schar" -> "int8"
    [] b = "short" -> "int16" [] b = "ushort" -> "uint16"
    [] b = "int" -> "int32"   [] b = "uint" -> "uint32"
    [] b = "long" -> IF opts.long64 THEN "int64" ELSE "int32"
    [] b = "ulong" -> IF opts.long64 THEN "uint64" ELSE "uint32"
    [] b = "llong" -> "int64" [] b = "ullong" -> "uint64"
    [] b = "float" -> "float32"
    [] b \in {"double", "ldouble"} -> "float64"
    [] b = "cfloat" -> "complex64" [] b = "cdouble" -> "complex128"
    [] b = "bool" -> "bool"

RECURSIVE Rep(_, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
RECURSIVE Dims(_)
Dims(arr) == IF arr = <<>> THEN "" ELSE "[" \o NatStr(Head(arr)) \o "]" \o Dims(Tail(arr))

(* ------------------------------------------------------------- machine *)
(* One step of looking through a C type: a typedef of a pointer or an array is   *)
(* replaced by what it stands for, any other typedef is named if accepted; if it *)
(* is not, nothing it stands for is named either.                                *)
IsAlias(env, b) == b \in DOMAIN env /\ env[b].k = "alias"
Derived(env, b) == IsAlias(env, b) /\ (env[b].to.p > 0 \/ env[b].to.arr # <<>>)
Transparent(env, t, named) == IsAlias(env, t.b) /\ (Derived(env, t.b) \/ ~(named /\ env[t.b].acc))
Through(env, t) ==
  LET to == env[t.b].to
  IN [b |-> to.b, p |-> to.p + t.p, c |-> IF to.p = 0 THEN t.c ELSE FALSE, arr |-> t.arr \o to.arr]
RECURSIVE Peel(_, _, _)
Peel(env, t, named) ==
  IF Transparent(env, t, named) THEN Peel(env, Through(env, t), named /\ Derived(env, t.b)) ELSE t

(* The pointer levels in front of a type.  A plain C type keeps slices outside  *)
(* and one pointer inside with sref, pointers only with ref; a named type the    *)
(* other way round; otherwise every level is a slice.                            *)
Levels(leaf, tip, p) ==
  IF p <= 0 THEN ""
  ELSE IF (tip = "ref" /\ leaf = "plain") \/ (tip \in {"sref", "inst"} /\ leaf = "named") THEN Rep("*", p)
  ELSE IF tip \in {"ref", "sref", "inst"} THEN Rep("[]", p - 1) \o "*"
  ELSE Rep("[]", p)

(* What the configured type map has for p pointers on t's base, "" for nothing. *)
Mapped(opts, b, p, c) ==
  LET hits == {j \in 1..Len(opts.tmap) : opts.tmap[j].b = b /\ opts.tmap[j].p = p /\ opts.tmap[j].c = c}
  IN IF hits = {} THEN "" ELSE opts.tmap[CHOOSE j \in hits : TRUE].go

IsString(t, opts, typetip) ==
  /\ t.p >= 1 /\ t.c
  /\ \/ t.b = "char" /\ (opts.constchar \/ typetip = "string")
     \/ t.b = "uchar" /\ opts.constuchar

(* The configured map comes first, but what is const is first looked for as such. *)
Lookup(t, p, opts, typetip) ==
  LET m == Mapped(opts, t.b, p, t.c)
      built == IF p = 1 /\ IsString(t, opts, typetip) THEN "string" ELSE IF p = 0 /\ ~t.c THEN GoScalar(t.b, opts) ELSE ""
      plain == Mapped(opts, t.b, p, FALSE)
  IN IF m # "" THEN m ELSE IF built # "" THEN built ELSE IF plain # "" THEN plain ELSE IF p = 0 THEN GoScalar(t.b, opts) ELSE ""

(* The Go type of C type t under a pointer tip and a type tip ("" for none). *)
GoType(env, opts, t, ptip, ttip) ==
  LET u == Peel(env, t, ttip # "plain")
  IN Dims(u.arr) \o
     (IF u.b \in Builtins
      THEN IF u.b = "void" THEN Levels("plain", ptip, u.p - 1) \o "unsafe.Pointer"
           ELSE IF u.p >= 1 /\ Lookup(u, 1, opts, ttip) # ""
                THEN Levels("plain", IF ptip = "sref" THEN "arr" ELSE ptip, u.p - 1) \o Lookup(u, 1, opts, ttip)
           ELSE Levels("plain", ptip, u.p) \o Lookup(u, 0, opts, ttip)
      ELSE IF env[u.b].k = "callback" THEN u.b
      ELSE Levels("named", ptip, u.p) \o u.b)

(* ---------------------------------------------------------------- tips *)
(* The first entry of the scope that matches, then the first of scope any.       *)
(* Tips for structs are tips for types, after those.                            *)
FirstMatch(tips, scope, name) ==
  LET hits == {j \in 1..Len(tips) : tips[j].scope = scope /\ Matches(tips[j].target, FALSE, name)}
  IN IF hits = {} THEN 0 ELSE CHOOSE j \in hits : \A k \in hits : j <= k
EntryOf(tips, scope, name) ==
  LET a == FirstMatch(tips, scope, name)
      b == IF scope = "type" THEN FirstMatch(tips, "struct", name) ELSE 0
  IN IF a # 0 THEN a ELSE IF b # 0 THEN b ELSE FirstMatch(tips, "any", name)
(* for position n (1, 2, ...), or for the thing itself (0) *)
TipOf(tips, scope, name, n) ==
  LET e == EntryOf(tips, scope, name)
  IN IF e = 0 THEN ""
     ELSE IF n = 0 THEN IF tips[e].self # "" THEN tips[e].self ELSE tips[e].dflt
     ELSE IF n <= Len(tips[e].tips) /\ tips[e].tips[n] # "" THEN tips[e].tips[n] ELSE tips[e].dflt
Or(a, b) == IF a # "" THEN a ELSE b

(* the name that a tip for the type itself refers to: typedefs of pointers and   *)
(* arrays are looked through, those of void pointers are not                    *)
RECURSIVE Spelled(_, _)
Spelled(env, t) == IF Derived(env, t.b) /\ env[t.b].to.b # "void" THEN Spelled(env, Through(env, t)) ELSE t.b
CgoSpelled(env, t) == LET n == Spelled(env, t) IN IF n \in DOMAIN env THEN env[n].cgo ELSE n

(* Memory tips have no scopes. *)
MemEntry(mtips, name) ==
  LET hits == {j \in 1..Len(mtips) : Matches(mtips[j].target, FALSE, name)}
  IN IF hits = {} THEN 0 ELSE CHOOSE j \in hits : \A k \in hits : j <= k
MemOf(mtips, name, n) ==
  LET e == MemEntry(mtips, name)
  IN IF e = 0 THEN ""
     ELSE IF n = 0 THEN Or(mtips[e].self, mtips[e].dflt)
     ELSE IF n <= Len(mtips[e].tips) THEN Or(mtips[e].tips[n], mtips[e].dflt) ELSE mtips[e].dflt

(* A struct without a typedef is meant by its tag, or else as cgo calls it. *)
StructMem(mtips, cgo) ==
  LET tag == SubSeq(cgo, 8, Len(cgo))
  IN IF HasPrefix(cgo, "struct_") /\ MemEntry(mtips, tag) # 0 THEN MemOf(mtips, tag, 0) ELSE MemOf(mtips, cgo, 0)

(* A struct with members has these in order, those left out whose type is a     *)
(* struct, union or enum that is not accepted, and then a reference to the C     *)
(* object and its allocations. s: [name, fields].                               *)
FieldKept(env, t) ==
  LET u == Peel(env, t, FALSE) IN ~(u.b \in DOMAIN env /\ env[u.b].k \in {"struct", "opaque", "handle", "union", "enum"} /\ ~env[u.b].acc)
FieldPtr(env, ptips, mtips, s, n) ==
  IF Or(MemOf(mtips, s.name, n), StructMem(mtips, CgoSpelled(env, s.fields[n].t))) = "raw" THEN "sref"
  ELSE Or(TipOf(ptips, "type", s.name, n), "arr")
(* pointers in an array are always kept as pointers *)
FieldTip(env, ptips, mtips, s, n) ==
  IF Peel(env, s.fields[n].t, TRUE).arr # <<>> THEN "sref" ELSE FieldPtr(env, ptips, mtips, s, n)
FieldStep(env, opts, ptips, ttips, mtips, s, at, out) ==
  IF FieldKept(env, s.fields[at].t)
  THEN Append(out, [n |-> s.fields[at].name,
                    t |-> GoType(env, opts, s.fields[at].t, FieldTip(env, ptips, mtips, s, at), Or(TipOf(ttips, "type", s.name, at), "named"))])
  ELSE out
(* A struct that is tipped raw stays the C type. *)
StaysC(env, mtips, name) == env[name].k \in {"opaque", "handle"} \/ StructMem(mtips, env[name].cgo) = "raw"

(* A function has its parameters in order, the first one with the tip inst as   *)
(* receiver, and a result if the C function has one.  f: [name, ret, params]     *)
(* with ret.b = "void", ret.p = 0 for none.                                      *)
(* An array is passed as a pointer to its first element. *)
RECURSIVE Plainly(_, _)
Plainly(env, t) == IF Derived(env, t.b) THEN Plainly(env, Through(env, t)) ELSE t
Decay(env, t) ==
  LET u == Plainly(env, t) IN IF u.arr = <<>> THEN t ELSE [u EXCEPT !.p = @ + 1, !.arr = Tail(@)]
(* one of several dimensions as a pointer to arrays *)
ArgType(env, opts, t, pt, tt) ==
  LET u == Plainly(env, t)
  IN IF Len(u.arr) < 2 THEN GoType(env, opts, Decay(env, t), pt, tt)
     ELSE Levels("plain", pt, 1) \o GoType(env, opts, [u EXCEPT !.arr = Tail(@)], pt, tt)
ParamPtr(ptips, f, n) == Or(TipOf(ptips, "function", f.name, n), "arr")
ParamType(env, ttips, f, n) ==
  Or(TipOf(ttips, "function", f.name, n), TipOf(ttips, "type", Spelled(env, f.params[n].t), 0))
HasResult(f) == ~(f.ret.b = "void" /\ f.ret.p = 0)

NewSig == [recv |-> <<>>, params |-> <<>>, results |-> <<>>, at |-> 1]
(* One step: the next parameter, and after the last one the result. *)
SigDone(f, s) == s.at > Len(f.params) + 1
SigStep(env, opts, ptips, ttips, f, s) ==
  IF s.at <= Len(f.params)
  THEN LET pt == ParamPtr(ptips, f, s.at)
           par == [n |-> f.params[s.at].name,
                   t |-> ArgType(env, opts, f.params[s.at].t, IF pt = "inst" THEN "ref" ELSE pt, ParamType(env, ttips, f, s.at))]
       IN IF pt = "inst"
          THEN [s EXCEPT !.at = @ + 1, !.recv = IF @ = <<>> THEN <<par>> ELSE @]
          ELSE [s EXCEPT !.at = @ + 1, !.params = Append(@, par)]
  ELSE [s EXCEPT !.at = @ + 1,
         !.results = IF HasResult(f)
                     THEN <<GoType(env, opts, [f.ret EXCEPT !.c = @ /\ f.ret.p = 1 /\ f.ret.b \in Builtins], Or(TipOf(ptips, "function", f.name, 0), "ref"),
                                   Or(TipOf(ttips, "function", f.name, 0), "named"))>>
                     ELSE <<>>]
(* A function that would have the name of the type it returns makes a new one.   *)
GoFnName(f, s) == IF s.results = <<f.name>> THEN "new_" \o f.name ELSE f.name
RECURSIVE SigFrom(_, _, _, _, _, _)
SigFrom(env, opts, ptips, ttips, f, s) ==
  IF SigDone(f, s) THEN s ELSE SigFrom(env, opts, ptips, ttips, f, SigStep(env, opts, ptips, ttips, f, s))
Signature(env, opts, ptips, ttips, f) == SigFrom(env, opts, ptips, ttips, f, NewSig)
=============================================================================
