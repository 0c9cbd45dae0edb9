--------------------------- MODULE ConfInventory ---------------------------
(* Each case is a configuration with its headers and what the real generator     *)
(* put out for them; the machine is run to its end and compared.                  *)
(*   mode "set":   the same declarations came out (by C identity)                  *)
(*   mode "names": ... and each is called, in Go, what the rules say               *)
(*   mode "order": ... and in the same order                                       *)
EXTENDS Inventory, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

CaseOf(x) == [rules |-> x.rules, decls |-> x.decls, ignored |-> {x.ignored[j] : j \in 1..Len(x.ignored)}]

Init == \E j \in 1..Len(Cases) : i = j /\ verdict = "todo" /\ InitWith(CaseOf(Cases[j]))

Files == {"const", "types", "main"}

Bare(it) == [t |-> it.t, id |-> it.id]
BareSeq(s) == [j \in 1..Len(s) |-> IF s[j].t = "type" /\ s[j].id = 0 THEN [t |-> "etype", id |-> 0] ELSE Bare(s[j])]

IdentFirst == LowerSet \cup UpperSet \cup {"_"}
IsIdent(n) == n # "" /\ n # "_" /\ Ch(n, 1) \in IdentFirst
(* Rules can produce names that clash or are no names at all: no statement is made then. *)
AllNames == out["const"] \o out["types"] \o out["main"]
Applicable ==
  /\ \A x \in 1..Len(AllNames) : IsIdent(AllNames[x].n)
  /\ \A x, y \in 1..Len(AllNames) : x < y => AllNames[x].n # AllNames[y].n
  /\ \A x \in 1..Len(AllNames) : LET s == AllNames[x].sub IN
       /\ \A y \in 1..Len(s) : s[y] = "_" \/ IsIdent(s[y])
       /\ \A y, z \in 1..Len(s) : y < z => s[y] # s[z]

RECURSIVE Count(_, _, _)
Count(s, e, j) == IF j > Len(s) THEN 0 ELSE (IF s[j] = e THEN 1 ELSE 0) + Count(s, e, j + 1)
SameBag(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Count(a, a[j], 1) = Count(b, a[j], 1)

NoDocs(s) == [j \in 1..Len(s) |-> [t |-> s[j].t, id |-> s[j].id, n |-> s[j].n, sub |-> s[j].sub]]
Agrees(f, mode, obs) ==
  LET e == NoDocs(out[f])
  IN CASE mode = "set" -> SameBag(BareSeq(e), BareSeq(obs))
       [] mode = "names" -> SameBag(e, obs)
       [] mode = "order" -> e = obs

FirstDiff(f, obs) ==
  LET e == NoDocs(out[f])
      d == {j \in 1..(Len(e) + Len(obs)) : ~(j <= Len(e) /\ j <= Len(obs) /\ e[j] = obs[j])}
  IN IF e = obs THEN [file |-> f] 
     ELSE LET j == CHOOSE j \in d : \A k \in d : j <= k
          IN [file |-> f, at |-> j, want |-> IF j <= Len(e) THEN e[j] ELSE "nothing",
              got |-> IF j <= Len(obs) THEN obs[j] ELSE "nothing"]

Judge ==
  /\ Finished /\ verdict = "todo"
  /\ LET x == Cases[i]
         app == x.mode = "set" \/ Applicable
         bad == {f \in Files : ~Agrees(f, x.mode, x.obs[f])}
         ok == ~app \/ bad = {}
     IN /\ PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> ok, na |-> ~app,
                     n |-> Len(out["const"]) + Len(out["types"]) + Len(out["main"]),
                     diff |-> IF ok THEN <<>> ELSE LET f == CHOOSE f \in bad : TRUE IN FirstDiff(f, x.obs[f])]))
        /\ verdict' = IF ok THEN "ok" ELSE "bad"
  /\ UNCHANGED <<vars, i>>

ConfNext == (verdict = "todo" /\ ~Finished /\ Next /\ UNCHANGED <<i, verdict>>) \/ Judge
Spec == Init /\ [][ConfNext]_<<vars, i, verdict>>
=============================================================================
