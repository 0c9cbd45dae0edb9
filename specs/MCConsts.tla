----------------------------- MODULE MCConsts -----------------------------
(* The rewriting of constant expressions keeps what they mean in C: for all       *)
(* expressions up to a size, with a macro A, a macro B and a macro E for an       *)
(* operand each. The expressions are built token by token.                        *)
EXTENDS Consts
(* The arithmetic on bytes agrees with the one of TLC where both apply. *)
Some == {-70000, -65536, -257, -256, -255, -100, -7, -1, 0, 1, 2, 3, 7, 10, 99, 255, 256, 257, 4660, 65535, 70000}
ASSUME \A x, y \in Some :
  LET p == WInt(x)  q == WInt(y)
      quot == IF y = 0 THEN 0 ELSE LET m == (IF x < 0 THEN -x ELSE x) \div (IF y < 0 THEN -y ELSE y)
                                   IN IF (x < 0) # (y < 0) THEN -m ELSE m
  IN /\ WToInt(WAdd(p, q)) = x + y /\ WToInt(WSub(p, q)) = x - y /\ WNeg(p) = WInt(-x)
     /\ (x < 20000 /\ x > -20000 /\ y < 20000 /\ y > -20000 => WMul(p, q) = WInt(x * y))
     /\ (y # 0 => WDivMod(p, q).q = WInt(quot) /\ WDivMod(p, q).r = WInt(x - y * quot))
     /\ WLess(p, q) = (x < y) /\ WShr(p, 3) = WInt(x \div 8) /\ WShl(p, 9) = WInt(x * 512)
     /\ WNot(p) = WInt(-x - 1) /\ WShow(p) = ToString(x) /\ WParseSigned(ToString(x)) = p
     /\ WAdd(WBit("&", p, q), WBit("|", p, q)) = WAdd(p, q)
     /\ WAdd(WBit("^", p, q), WScale(WBit("&", p, q), 2)) = WAdd(p, q)

CONSTANTS Ops, Uns, MaxLen, BodiesA, BodiesB
VARIABLES a, b, tk, depth, done

N(n) == [t |-> "n", s |-> n]
Id(n) == [t |-> "i", s |-> n]
O(n) == [t |-> "o", s |-> n]

Bodies == << <<N("3")>>, <<O("-"), N("3")>>, <<N("1"), O("+"), N("2")>>, <<N("6"), O("&"), N("3")>>,
  <<O("("), N("1"), O("+"), N("2"), O(")")>>, <<O("("), N("1"), O(")"), O("<<"), O("("), N("2"), O(")")>>,
  <<Id("A")>>, <<Id("A"), O("|"), N("8")>>, <<O("~"), Id("A")>>, <<>>, <<O("-"), Id("A"), O("*"), N("2")>> >>

vars == <<a, b, tk, depth, done>>
Init == a \in BodiesA /\ b \in BodiesB /\ tk = <<>> /\ depth = 0 /\ done = FALSE

WantsOperand == IF tk = <<>> THEN TRUE ELSE tk[Len(tk)].t = "o" /\ tk[Len(tk)].s # ")"
Operands == {N("5"), Id("A"), Id("B")}
Put(x, d) == tk' = Append(tk, x) /\ depth' = d /\ UNCHANGED <<a, b, done>>
Room == Len(tk) + depth < MaxLen
Next ==
  /\ ~done
  /\ \/ Room /\ WantsOperand /\ \E x \in Operands : Put(x, depth)
     \/ Len(tk) + depth + 1 < MaxLen /\ WantsOperand /\ \E u \in Uns : Put(O(u), depth)
     \/ Len(tk) + depth + 2 < MaxLen /\ WantsOperand /\ Put(O("("), depth + 1)
     \/ Len(tk) + depth + 1 < MaxLen /\ ~WantsOperand /\ \E o \in Ops : Put(O(o), depth)
     \/ ~WantsOperand /\ depth > 0 /\ Put(O(")"), depth - 1)
     \/ ~WantsOperand /\ depth = 0 /\ done' = TRUE /\ UNCHANGED <<a, b, tk, depth>>
Spec == Init /\ [][Next]_vars

Macros == [n \in {"A", "B"} |-> IF n = "A" THEN Bodies[a] ELSE Bodies[b]]
NoEnv == [n \in {} |-> NoVal]
NoTypes == [n \in {} |-> ""]
RewrittenOf(n) == Rewrite(GoTokens(Macros, n, Macros[n]), NoTypes)
GoA == GoEval(NoTypes, NoEnv, <<>>, RewrittenOf("A"))
GoB == GoEval(NoTypes, [n \in {"A"} |-> GoA], <<>>, RewrittenOf("B"))
GoEnv == [n \in {"A", "B"} |-> IF n = "A" THEN GoA ELSE GoB]

Faithful ==
  done => LET w == Rewrite(GoTokens(Macros, "E", tk), NoTypes)
              c == CEval(NoTypes, Macros, NoEnv, tk)
              g == GoEval(NoTypes, GoEnv, <<>>, w)
              \* the two are the same unless a macro without a value is named
          IN (c.k # "none" /\ g.k # "none" => c.n = g.n)
             /\ (a # 10 /\ c.k # "none" => g.k # "none")
=============================================================================
