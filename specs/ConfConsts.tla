---------------------------- MODULE ConfConsts ----------------------------
(* Each case is a header with constants and what the real generator made of them. *)
(* Items of the header are evaluated one by one (Eval), then all are compared.    *)
EXTENDS Consts, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict, at, vals, prev, mac, tds

X == Cases[i]
Items(x) == {x.items[j] : j \in 1..Len(x.items)}
MacrosOf(x) ==
  LET ms == {it \in Items(x) : it.k = "macro"}
  IN [n \in {m.name : m \in ms} |-> (CHOOSE m \in ms : m.name = n).toks]
Typedefs(x) == [n \in {x.typedefs[j].name : j \in 1..Len(x.typedefs)} |->
                  (CHOOSE t \in {x.typedefs[j] : j \in 1..Len(x.typedefs)} : t.name = n).base]
AccTypedefs(x) == [n \in {x.typedefs[j].name : j \in {k \in 1..Len(x.typedefs) : x.typedefs[k].acc}} |-> Typedefs(x)[n]]

Init == i \in 1..Len(Cases) /\ verdict = "todo" /\ at = 1 /\ vals = [n \in {} |-> NoVal] /\ prev = NoVal
        /\ mac = MacrosOf(Cases[i]) /\ tds = Typedefs(Cases[i])

With(n, v) == [m \in DOMAIN vals \cup {n} |-> IF m = n THEN v ELSE vals[m]]

(* A member of an enum without a value is one more than the member before. *)
NextMember(it) ==
  IF it.toks # <<>> THEN CEval(tds, mac, vals, it.toks)
  ELSE IF it.first THEN SmallV(0)
  ELSE IF prev.k = "int" THEN IntV(WAdd(prev.n, WInt(1)), "i") ELSE NoVal

Eval ==
  /\ verdict = "todo" /\ at <= Len(X.items)
  /\ LET it == X.items[at]
     IN CASE it.k = "enum" -> LET v0 == NextMember(it)
                                  v == IF v0.k = "int" THEN IntV(v0.n, IF FitsIn(v0.n, "i") THEN "i" ELSE v0.ty) ELSE v0
                              IN prev' = v /\ vals' = With(it.name, v)
          [] it.k = "var" -> prev' = prev /\ vals' = With("=" \o it.name, Convert(CEval(tds, mac, vals, it.toks), it.base))
          [] OTHER -> UNCHANGED <<prev, vals>>
  /\ at' = at + 1 /\ UNCHANGED <<i, verdict, mac, tds>>

(* ----------------------------------------------------------- comparison *)
Members(x) == {it.name : it \in {y \in Items(x) : y.k = "enum"}}
AccMembers(x) == {it.name : it \in {y \in Items(x) : y.k = "enum" /\ y.acc}}
AccMacros(x) == {it.name : it \in {y \in Items(x) : y.k = "macro" /\ y.acc}}
IdsOf(tk) == {tk[j].s : j \in {k \in 1..Len(tk) : tk[k].t = "i"}}

(* The macro has a value that can be written in Go, by naming others that have. *)
RECURSIVE GoAble(_, _, _)
GoAble(x, n, fuel) ==
  LET ms == mac
      tk == GoTokens(ms, n, ms[n])
  IN /\ fuel > 0 /\ tk # <<>> /\ Rewrite(tk, AccTypedefs(x)) # <<>>
     /\ \A id \in IdsOf(tk) : id \in AccMembers(x) \cup DOMAIN AccTypedefs(x)
                              \/ (id \in AccMacros(x) /\ GoAble(x, id, fuel - 1))

HasSuffix2(tk) == \E j \in 1..Len(tk) : tk[j].t = "n" /\ ~IsFloat(tk[j].s) /\ SuffixOf(tk[j].s) # ""

Same(v, o) ==
  CASE v.k = "str" -> o.vk = "string" /\ o.bytes = v.s
    [] v.k = "int" -> o.vk \in {"int", "float"} /\ o.den = "1" /\ WParseSigned(o.num) = v.n
    [] v.k = "flt" -> o.vk \in {"int", "float"} /\ WMul(WParseSigned(o.num), v.d) = WMul(WParse(o.den, 10), v.n)
    [] OTHER -> FALSE

GoBase == [c \in DOMAIN SizeOf |->
  CASE c = "char" -> "byte" [] c = "short" -> "int16" [] c = "unsigned short" -> "uint16" [] c = "int" -> "int32"
    [] c = "unsigned int" -> "uint32" [] c = "long" -> "int" [] c = "unsigned long" -> "uint"
    [] c = "long long" -> "int64" [] c = "unsigned long long" -> "uint64" [] c = "float" -> "float32"
    [] c = "double" -> "float64" [] c = "unsigned char" -> "byte" [] c = "signed char" -> "int8" [] OTHER -> "?"]

Named(x, o) == {o.idents[j] : j \in 1..Len(o.idents)} \cap {it.go : it \in {y \in Items(x) : y.acc}}
GoNames(x, ids) == {it.go : it \in {y \in Items(x) : y.name \in ids}}

Fails(x, it) ==
  LET present == it.go \in DOMAIN x.obs
      o == x.obs[it.go]
      ms == mac
      v == CASE it.k = "enum" -> vals[it.name] [] it.k = "var" -> vals["=" \o it.name]
             [] it.k = "etype" -> SmallV(0)
             [] it.k = "macro" -> CEval(tds, ms, vals, it.toks)
      ex == Expand(ms, it.toks, {})
      F(why) == [name |-> it.name, why |-> why, want |-> CASE v.k = "int" -> WShow(v.n) [] v.k = "flt" -> WShow(v.n) \o "/" \o WShow(v.d) [] OTHER -> v.k,
                 got |-> IF present THEN o.expr ELSE "nothing"]
      ok == F("")
  IN CASE ~it.acc \/ v.k = "none" -> ok
       [] it.k = "etype" -> IF ~present THEN F("missing") ELSE IF o.type # it.base THEN F("type " \o o.type) ELSE ok
       [] it.k = "enum" ->
            IF ~present THEN F("missing")
            ELSE IF o.type # it.etype THEN F("type " \o o.type)
            ELSE IF x.enummode = "cgo" THEN (IF o.expr = "C." \o it.name THEN ok ELSE F("not an alias"))
            ELSE IF ~Same(v, o) THEN F("value " \o o.num)
            ELSE LET kept == x.enummode = "expand" /\ it.toks # <<>> /\ ~HasSuffix2(ex) /\ Rewrite(ex, [n \in {} |-> ""]) # <<>>
                             /\ IdsOf(ex) \subseteq AccMembers(x)
                 IN IF Named(x, o) # (IF kept THEN GoNames(x, IdsOf(ex)) ELSE {}) THEN F("names other constants") ELSE ok
       [] it.k = "var" ->
            IF ~present THEN F("missing")
            ELSE IF o.type # GoBase[it.base] THEN F("type " \o o.type)
            ELSE IF ~Same(v, o) THEN F("value " \o o.num) ELSE ok
       [] it.k = "macro" ->
            LET able == GoAble(x, it.name, 20)
                tk == GoTokens(ms, it.name, it.toks)
            IN IF able /\ ~present THEN F("missing")
               ELSE IF ~present \/ o.expr = "" THEN ok
               ELSE IF ~(x.enummode = "cgo" /\ IdsOf(ex) \cap Members(x) # {}) /\ ~Same(v, o) THEN F("value " \o o.num)
               ELSE IF x.defmode = "expand" /\ able /\ Named(x, o) # GoNames(x, IdsOf(tk)) THEN F("names other constants")
               ELSE ok

Judge ==
  /\ verdict = "todo" /\ at > Len(X.items)
  /\ LET bad == {f \in {Fails(X, it) : it \in Items(X)} : f.why # ""}
     IN /\ PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> bad = {}, na |-> FALSE,
                     items |-> Cardinality(Items(X)),
                     diff |-> IF bad = {} THEN <<>> ELSE CHOOSE b \in bad : TRUE]))
        /\ verdict' = IF bad = {} THEN "ok" ELSE "bad"
  /\ UNCHANGED <<i, at, vals, prev, mac, tds>>

Next == Eval \/ Judge
Spec == Init /\ [][Next]_<<i, verdict, at, vals, prev, mac, tds>>
=============================================================================
