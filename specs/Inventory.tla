----------------------------- MODULE Inventory -----------------------------
(* What ends up in a generated package: the pass over the declarations of the   *)
(* C headers, as a state machine that visits one declaration per step and puts   *)
(* out the Go declarations it is translated to.                                  *)
(*                                                                               *)
(* A header declaration is a record [k, td, tag, id, file, members, names, ...]: *)
(*   "macro"  object-like macro td                                               *)
(*   "enum"   enumeration: typedef name td ("" if none), tag ("" if none),       *)
(*            members = sequence of [n, id]                                      *)
(*   "cvar"   constant variable td                                               *)
(*   "ty"     typedef td of a plain type      "ft"  function-pointer typedef td   *)
(*   "st"     struct: typedef name td, tag    "un"  union: typedef name td, tag    *)
(*   "fn"     function td (parameter names = names)                                *)
(*   "sv"     variable td of a struct or union type                                *)
(*   "nv"     any other variable: nothing comes of it                               *)
(* A struct, union or enumeration may be declared several times and have several    *)
(* typedefs: they are declarations with one id (and one list of members or names).  *)
(* id identifies the entity by its contents, so that it is recognised whatever     *)
(* it is called in Go.  Declarations come in the order of (file, position).        *)
EXTENDS Names, SequencesExt, FiniteSets

VARIABLES
  c,       \* the input: [rules, decls, ignored (set of file names)]
  phase,   \* index into Phases
  pos,     \* next candidate of the phase
  seen,    \* what has been put out already: <<space, key>>
  out      \* per generated file: the sequence of declarations put out

vars == <<c, phase, pos, seen, out>>

Phases == <<"macros", "enums", "decls", "typedefs", "tags", "main", "end">>
FileOf(p) == CASE p \in {"macros", "enums", "decls"} -> "const"
               [] p \in {"typedefs", "tags"} -> "types"
               [] OTHER -> "main"

Acc(cc, target, name) == Accepted(cc.rules, target, name)
Tr(cc, target, name, vis) == Transform(cc.rules, target, CName(name), vis)
Nonempty(n) == IF n = "" THEN "_" ELSE n

(* An item remembers what its comment is about: the words that precede the       *)
(* location, the kind of doc rules, the C name and the place in the sources.      *)
LineOf(r) == IF "line" \in DOMAIN r THEN r.line ELSE 0
About(w, k, c_, d, r) == [w |-> w, k |-> k, c |-> c_, file |-> d.file, line |-> LineOf(r)]
Item(t, id, n, sub, doc) == [t |-> t, id |-> id, n |-> n, sub |-> sub, doc |-> doc]

(* the name an enumeration / struct is known by *)
KnownAs(d) == IF d.td # "" THEN d.td ELSE d.tag

(* what stands in a file that is listed as ignored, with or without directories, *)
(* is left out                                                                    *)
Live(cc, d) == ~\E p \in cc.ignored : d.file = p \/ HasSuffix(d.file, "/" \o p)

Has(p, d) ==
  CASE p = "macros"   -> d.k = "macro"
    [] p = "enums"    -> d.k = "enum" /\ KnownAs(d) # ""
    [] p = "decls"    -> d.k = "cvar" \/ (d.k = "enum" /\ d.td = "")
    [] p = "typedefs" -> d.k \in {"ty", "st", "un", "ft"} /\ d.td # ""
    [] p = "tags"     -> d.k \in {"st", "un"} /\ d.tag # ""
    [] p = "main"     -> d.k \in {"fn", "sv"}
    [] OTHER          -> FALSE

RECURSIVE InsertByTag(_, _)
InsertByTag(s, d) ==
  IF s = <<>> THEN <<d>>
  ELSE IF StrLess(d.tag, Head(s).tag) THEN <<d>> \o s ELSE <<Head(s)>> \o InsertByTag(Tail(s), d)
RECURSIVE ByTag(_, _)
ByTag(ds, i) == IF i = 0 THEN <<>> ELSE InsertByTag(ByTag(ds, i - 1), ds[i])

(* A tag may be declared several times (struct t; typedef struct t a; struct t {};): *)
(* the first typedef stands for it, or else the first declaration.                *)
StandsForTag(ds, i) ==
  LET same == {j \in 1..Len(ds) : ds[j].tag = ds[i].tag}
      tds == {j \in same : ds[j].td # ""}
      from == IF tds # {} THEN tds ELSE same
  IN i \in from /\ \A j \in from : i <= j
OnePerTag(ds) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i > Len(ds) THEN <<>> ELSE (IF StandsForTag(ds, i) THEN <<ds[i]>> ELSE <<>>) \o Go(i + 1)
  IN Go(1)

Cand(cc, p) ==
  LET ds == SelectSeq(cc.decls, LAMBDA d : Has(p, d) /\ Live(cc, d))
  IN IF p = "tags" THEN LET one == OnePerTag(ds) IN ByTag(one, Len(one)) ELSE ds

(* What one declaration contributes: [items, seen]. *)
Nothing(sn) == [items |-> <<>>, seen |-> sn]

RECURSIVE Members(_, _, _, _, _)
Members(cc, d, ms, i, sn) ==
  IF i > Len(ms) THEN Nothing(sn)
  ELSE LET n == Tr(cc, "const", ms[i].n, "")
       IN IF ~Acc(cc, "const", ms[i].n) \/ n = "" \/ <<"const", n>> \in sn
          THEN Members(cc, d, ms, i + 1, sn)
          ELSE LET rest == Members(cc, d, ms, i + 1, sn \cup {<<"const", n>>})
                   \* the members of a named enumeration have one comment together
                   doc == IF KnownAs(d) = "" THEN About("as declared in", "const", ms[i].n, d, ms[i])
                          ELSE About("enumeration from", "const", KnownAs(d), d, d)
               IN [items |-> <<Item("const", ms[i].id, n, <<>>, doc)>> \o rest.items, seen |-> rest.seen]

Enum(cc, d, sn) ==
  LET ms == Members(cc, d, d.members, 1, sn)
  IN IF KnownAs(d) = "" THEN ms
     ELSE [items |-> <<Item("type", 0, Tr(cc, "type", KnownAs(d), ""), <<>>, About("as declared in", "const", KnownAs(d), d, d))>> \o ms.items,
           seen |-> ms.seen \cup {<<"enum", KnownAs(d)>>}]

Once(sn, space, key, item) ==
  IF <<space, key>> \in sn THEN Nothing(sn) ELSE [items |-> <<item>>, seen |-> sn \cup {<<space, key>>}]

Fields(cc, d) == [i \in 1..Len(d.names) |-> Nonempty(Tr(cc, "type", d.names[i], "public"))]
Params(cc, d) == [i \in 1..Len(d.names) |-> Nonempty(Tr(cc, "type", d.names[i], "private"))]

(* A function that would be called like the type it returns is a constructor. *)
FuncName(cc, d) ==
  LET n == Tr(cc, "function", d.td, "public")
  IN IF d.ret # "" /\ Tr(cc, "type", d.ret, "") = n
     THEN Nonempty(Tr(cc, "function", "new_" \o CName(d.td), "public")) ELSE Nonempty(n)

Contribution(cc, p, d, sn) ==
  CASE p = "macros" ->
         IF Acc(cc, "const", d.td)
         THEN [items |-> <<Item("const", d.id, Tr(cc, "const", d.td, ""), <<>>, About("as defined in", "const", d.td, d, d))>>, seen |-> sn]
         ELSE Nothing(sn)
    [] p = "enums" ->
         IF Acc(cc, "type", KnownAs(d)) /\ <<"enum", KnownAs(d)>> \notin sn THEN Enum(cc, d, sn) ELSE Nothing(sn)
    [] p = "decls" /\ d.k = "enum" ->
         \* an enumeration that is no typedef comes out with its constants whatever is said about its tag
         IF <<"enum", KnownAs(d)>> \in sn THEN Nothing(sn) ELSE Enum(cc, d, sn)
    [] p = "decls" /\ d.k = "cvar" ->
         IF Acc(cc, "public", d.td) /\ ~d.static
         THEN [items |-> <<Item("const", d.id, Tr(cc, "const", d.td, ""), <<>>, About("as declared in", "const", d.td, d, d))>>, seen |-> sn] ELSE Nothing(sn)
    [] p = "typedefs" ->
         LET n == Tr(cc, "type", d.td, "")
             sub == IF d.k = "st" THEN Fields(cc, d) ELSE IF d.k = "ft" THEN Params(cc, d) ELSE <<>>
             doc == CASE d.k = "ft" -> About("type as declared in", "function", d.td, d, d)
                      [] d.k = "ty" -> About("type as declared in", "type", d.td, d, d)
                      [] OTHER -> About("as declared in", "type", d.td, d, d)
         IN IF ~Acc(cc, "type", d.td) THEN Nothing(sn)
            ELSE LET r == Once(sn, d.k, n, Item("type", d.id, n, sub, doc))
                 IN IF d.tag = "" THEN r ELSE [r EXCEPT !.seen = @ \cup {<<"tag", d.tag>>}]
    [] p = "tags" ->
         \* by its tag, unless it came out already by its typedef name
         LET n == Tr(cc, "type", KnownAs(d), "")
         IN IF Acc(cc, "public", d.tag) /\ Acc(cc, "type", d.tag) /\ <<"tag", d.tag>> \notin sn
            THEN Once(sn, IF d.k = "un" THEN "union tag" ELSE d.k, IF d.k = "un" THEN d.tag ELSE n, Item("type", d.id, n, IF d.k = "st" THEN Fields(cc, d) ELSE <<>>,
                                  About("as declared in", "type", KnownAs(d), d, d)))
            ELSE Nothing(sn)
    [] p = "main" /\ d.k = "fn" ->
         IF ~Acc(cc, "function", d.td) THEN Nothing(sn)
         ELSE Once(sn, "fn", d.td, Item("func", d.id, FuncName(cc, d), Params(cc, d), About("function as declared in", "function", d.td, d, d)))
    [] p = "main" /\ d.k = "sv" ->
         IF ~Acc(cc, "public", d.td) THEN Nothing(sn)
         ELSE Once(sn, "sv", d.td, Item("var", d.id, Nonempty(Tr(cc, "type", d.td, "public")), <<>>, About("", "", d.td, d, d)))
    [] OTHER -> Nothing(sn)

InitWith(cc) ==
  /\ c = cc /\ phase = 1 /\ pos = 1 /\ seen = {}
  /\ out = [f \in {"const", "types", "main"} |-> <<>>]

P == Phases[phase]

Visit ==
  /\ P # "end"
  /\ pos <= Len(Cand(c, P))
  /\ LET d == Cand(c, P)[pos]
         r == Contribution(c, P, d, seen)
     IN /\ seen' = r.seen
        /\ out' = [out EXCEPT ![FileOf(P)] = @ \o r.items]
  /\ pos' = pos + 1
  /\ UNCHANGED <<c, phase>>

NextPhase ==
  /\ P # "end"
  /\ pos > Len(Cand(c, P))
  /\ phase' = phase + 1 /\ pos' = 1
  /\ UNCHANGED <<c, seen, out>>

Next == Visit \/ NextPhase
Finished == P = "end"

(* ---------------------------------------------------------------- properties *)
Ids(f) == {out[f][i].id : i \in 1..Len(out[f])} \ {0}

(* What rules reject does not come out; nothing comes out of an ignored file.   *)
WantedBy(cc, d) ==
  CASE d.k = "macro" -> Acc(cc, "const", d.td)
    [] d.k = "cvar" -> ~d.static /\ Acc(cc, "public", d.td)
    [] d.k = "fn" -> Acc(cc, "function", d.td)
    [] d.k = "sv" -> Acc(cc, "public", d.td)
    [] d.k = "enum" -> d.td = "" \/ Acc(cc, "type", d.td)
    [] OTHER -> \/ d.td # "" /\ Acc(cc, "type", d.td)
                \/ d.tag # "" /\ Acc(cc, "type", d.tag) /\ Acc(cc, "public", d.tag)

EntityIds(cc, d) ==
  IF d.k = "enum" THEN {d.members[i].id : i \in {j \in 1..Len(d.members) : Acc(cc, "const", d.members[j].n)}} ELSE {d.id}

AllowedIds == UNION {EntityIds(c, c.decls[i]) : i \in {j \in 1..Len(c.decls) : Live(c, c.decls[j]) /\ WantedBy(c, c.decls[j])}}
OnlyWanted == Ids("const") \cup Ids("types") \cup Ids("main") \subseteq AllowedIds

(* At the end, everything wanted is there unless its Go name was taken by an     *)
(* earlier declaration of the same kind.                                          *)
GoTaken == \E x, y \in 1..Len(c.decls) : x # y /\
   LET a == c.decls[x] b == c.decls[y]
   IN Tr(c, "type", KnownAs(a), "") = Tr(c, "type", KnownAs(b), "")
NothingLost == (Finished /\ ~GoTaken) =>
   \A i \in 1..Len(c.decls) : (Live(c, c.decls[i]) /\ WantedBy(c, c.decls[i]) /\ c.decls[i].k # "enum")
      => c.decls[i].id \in Ids("const") \cup Ids("types") \cup Ids("main")

(* ... and so is every name that it has *)
NoNameLost == (Finished /\ ~GoTaken) =>
   \A i \in 1..Len(c.decls) : LET d == c.decls[i] IN
     (Live(c, d) /\ d.k \in {"ty", "st", "un", "ft"} /\ d.td # "" /\ Acc(c, "type", d.td))
       => \E j \in 1..Len(out["types"]) : out["types"][j].id = d.id /\ out["types"][j].n = Tr(c, "type", d.td, "")

(* A function, and a type name, is put out at most once. *)
NoRepeat ==
  /\ \A i, j \in 1..Len(out["main"]) : i # j => out["main"][i].id # out["main"][j].id
  /\ \A i, j \in 1..Len(out["types"]) : i # j => <<out["types"][i].id, out["types"][i].n>> # <<out["types"][j].id, out["types"][j].n>>

(* In main order is source order. *)
RankOf(id) == CHOOSE i \in 1..Len(c.decls) : c.decls[i].id = id
SourceOrder == \A i, j \in 1..Len(out["main"]) : i < j => RankOf(out["main"][i].id) < RankOf(out["main"][j].id)

AppendOnly == [][\A f \in DOMAIN out : IsPrefix(out[f], out'[f])]_vars
=============================================================================
