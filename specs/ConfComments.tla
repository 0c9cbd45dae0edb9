---------------------------- MODULE ConfComments ----------------------------
(* The comments of generated declarations against what Inventory.tla says they    *)
(* are about.  A case is a configuration with its headers (declarations with      *)
(* lines) and the comment found at every declaration, by its Go name.             *)
(* A doc rule's template is a sequence of [k |-> "s", v] and [k |-> "v", v].      *)
EXTENDS Inventory, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
CaseOf(x) == [rules |-> x.rules, decls |-> x.decls, ignored |-> {}]
Init == \E j \in 1..Len(Cases) : i = j /\ verdict = "todo" /\ InitWith(CaseOf(Cases[j]))

(* The rules of the kind, or if it has none the global, or else the post-global. *)
DocRules(rules, kind) ==
  LET own == ActionRules(rules, kind, "doc")
      glob == ActionRules(rules, "global", "doc")
  IN IF own # <<>> THEN own ELSE IF glob # <<>> THEN glob ELSE ActionRules(rules, "post-global", "doc")

GoName(rules, name) == ApplyTarget(rules, "post-global", ApplyTarget(rules, "global", name))

Path(x, doc) == x.parents[doc.file] \o "/" \o BaseName(doc.file)
Var(x, doc, v) ==
  CASE v = "path" -> Path(x, doc) [] v = "file" -> BaseName(doc.file) [] v = "line" -> NatStr(doc.line)
    [] v = "name" -> doc.c [] v = "goname" -> GoName(x.rules, doc.c) [] OTHER -> ""
RECURSIVE Fill(_, _, _, _)
Fill(x, doc, to, j) ==
  IF j > Len(to) THEN "" ELSE (IF to[j].k = "s" THEN to[j].v ELSE Var(x, doc, to[j].v)) \o Fill(x, doc, to, j + 1)

(* built-in rules bring their templates *)
To(r) == IF r.to # <<>> THEN r.to
         ELSE IF r.load = "doc.file" THEN <<[k |-> "v", v |-> "path"], [k |-> "s", v |-> ":"], [k |-> "v", v |-> "line"]>>
         ELSE IF r.load = "doc.google" THEN <<[k |-> "s", v |-> "https://google.com/search?q="], [k |-> "v", v |-> "file"], [k |-> "s", v |-> "+"], [k |-> "v", v |-> "name"]>>
         ELSE <<>>

(* The first rule that matches the C name says where; without one, or with an     *)
(* empty one, it is the file, with the directory it is in, and the line.          *)
Location(x, doc) ==
  LET rs == DocRules(x.rules, doc.k)
      hits == {j \in 1..Len(rs) : Matches(rs[j].from, rs[j].ci, doc.c)}
      to == IF hits = {} THEN <<>> ELSE To(rs[CHOOSE j \in hits : \A k \in hits : j <= k])
  IN IF to = <<>> THEN Path(x, doc) \o ":" \o NatStr(doc.line) ELSE Fill(x, doc, to, 1)

(* The comment names the declaration, or the enumeration for its members. *)
Owner(x, it) == IF it.doc.w = "enumeration from" THEN Tr(CaseOf(x), "type", it.doc.c, "") ELSE it.n
Comment(x, it) == Owner(x, it) \o " " \o it.doc.w \o " " \o Location(x, it.doc)

All == out["const"] \o out["types"] \o out["main"]
IsIdent(n) == n # "" /\ n # "_" /\ Ch(n, 1) \in LowerSet \cup UpperSet \cup {"_"}
Applicable(x) ==
  /\ \A j \in 1..Len(All) : IsIdent(All[j].n) /\ GoName(x.rules, All[j].doc.c) # ""
  /\ \A j, k \in 1..Len(All) : j < k => All[j].n # All[k].n
Found(x, n) == IF n \in DOMAIN x.obs THEN x.obs[n] ELSE "nothing of that name"
Wrong(x) == {j \in 1..Len(All) : All[j].doc.w # "" /\ Found(x, All[j].n) # Comment(x, All[j])}

Judge ==
  /\ Finished /\ verdict = "todo"
  /\ LET x == Cases[i]
         app == Applicable(x)
         ok == ~app \/ Wrong(x) = {}
     IN /\ PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> ok, na |-> ~app, n |-> Len(All),
                     diff |-> IF ok THEN <<>> ELSE LET j == CHOOSE j \in Wrong(x) : TRUE
                              IN [n |-> All[j].n, want |-> Comment(x, All[j]), got |-> Found(x, All[j].n)]]))
        /\ verdict' = IF ok THEN "ok" ELSE "bad"
  /\ UNCHANGED <<vars, i>>
ConfNext == (verdict = "todo" /\ ~Finished /\ Next /\ UNCHANGED <<i, verdict>>) \/ Judge
Spec == Init /\ [][ConfNext]_<<vars, i, verdict>>
=============================================================================
