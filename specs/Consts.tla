------------------------------ MODULE Consts ------------------------------
(* What the constants of a header mean: the members of enums, object-like macros  *)
(* and const variables, given as the tokens the header has. The machine goes over *)
(* the items of the header in order, as a C compiler does, and gives each its     *)
(* value; macros stand for tokens and are only looked at once all items are known.*)
(*                                                                                *)
(* The second half describes how c-for-go turns the tokens into a Go expression   *)
(* (Rewrite) and what Go makes of that (GoEval).                                  *)
EXTENDS Wide, FiniteSets

NoVal == [k |-> "none"]
IntV(n, ty) == [k |-> "int", n |-> n, ty |-> ty]
FltV(n, d) == [k |-> "flt", n |-> n, d |-> d]
StrV(s) == [k |-> "str", s |-> s]
SmallV(n) == IntV(WInt(n), "i")

(* ------------------------------------------------------------ types of C *)
SizeOf == [c \in {"char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int",
                  "long", "unsigned long", "long long", "unsigned long long", "_Bool", "float", "double"} |->
  CASE c \in {"char", "signed char", "unsigned char", "_Bool"} -> 1
    [] c \in {"short", "unsigned short"} -> 2
    [] c \in {"int", "unsigned int", "float"} -> 4
    [] OTHER -> 8]
IsSigned(c) == c \in {"char", "signed char", "short", "int", "long", "long long"}
Promoted(c) == CASE c \in {"unsigned int"} -> "u" [] c \in {"long", "long long"} -> "l"
                 [] c \in {"unsigned long", "unsigned long long"} -> "ul" [] OTHER -> "i"

Wrap(n, ty) == CASE ty = "i" -> WTrunc(n, 4, TRUE) [] ty = "u" -> WTrunc(n, 4, FALSE)
                 [] ty = "l" -> WTrunc(n, 8, TRUE) [] ty = "ul" -> WTrunc(n, 8, FALSE)
FitsIn(n, ty) == Wrap(n, ty) = n
Common(a, b) == CASE "ul" \in {a, b} -> "ul" [] "l" \in {a, b} -> "l" [] "u" \in {a, b} -> "u" [] OTHER -> "i"

Convert(v, c) == \* to the C type c
  CASE v.k = "int" /\ c \in {"float", "double"} -> FltV(v.n, WInt(1))
    [] v.k = "int" /\ c = "_Bool" -> IntV(WInt(IF v.n = WZero THEN 0 ELSE 1), "i")
    [] v.k = "int" -> IntV(WTrunc(v.n, SizeOf[c], IsSigned(c)), Promoted(c))
    [] v.k = "flt" /\ c \in {"float", "double"} -> v
    [] v.k = "flt" -> IntV(WTrunc(WDivMod(v.n, v.d).q, SizeOf[c], IsSigned(c)), Promoted(c))
    [] OTHER -> v

(* --------------------------------------------------------------- literals *)
RECURSIVE SpanEnd(_, _, _)  \* the end of the characters of the set, from j on
SpanEnd(s, j, set) == IF j > Len(s) \/ ~(Ch(s, j) \in set) THEN j - 1 ELSE SpanEnd(s, j + 1, set)
DecSet == CharSet(Digits)
HexSet == CharSet("0123456789abcdefABCDEF")

RECURSIVE WPow(_, _)
WPow(b, n) == IF n = 0 THEN WInt(1) ELSE WScale(WPow(b, n - 1), b)

Strip(s) == SubSeq(s, 1, SpanEnd(s, 1, CharSet(s) \ CharSet("uUlL")))  \* cuts an integer suffix
SuffixOf(s) == Upper(SubSeq(s, Len(Strip(s)) + 1, Len(s)))
RECURSIVE Has(_, _, _)
Has(s, set, j) == j <= Len(s) /\ (Ch(s, j) \in set \/ Has(s, set, j + 1))

IsHex(s) == HasPrefix(Lower(s), "0x")
IsFloat(s) == IF IsHex(s) THEN Has(s, {"p", "P", "."}, 1) ELSE Has(s, {".", "e", "E"}, 1)

LitType(n, base, suf) ==
  LET us == Has(suf, {"U"}, 1)  ls == Has(suf, {"L"}, 1)
      may == IF us THEN (IF ls THEN <<"ul">> ELSE <<"u", "ul">>)
             ELSE IF ls THEN (IF base = 10 THEN <<"l">> ELSE <<"l", "ul">>)
             ELSE IF base = 10 THEN <<"i", "l">> ELSE <<"i", "u", "l", "ul">>
      ok == {j \in 1..Len(may) : FitsIn(n, may[j])}
  IN IF ok = {} THEN "ul" ELSE may[CHOOSE j \in ok : \A k \in ok : j <= k]

IntLit(s) ==
  LET d == Strip(s)
      base == IF IsHex(d) THEN 16 ELSE IF Len(d) > 1 /\ Ch(d, 1) = "0" THEN 8 ELSE 10
      n == WParse(IF base = 16 THEN SubSeq(d, 3, Len(d)) ELSE d, base)
  IN IntV(n, LitType(n, base, SuffixOf(s)))

(* mantissa [. fraction] [exponent]; in hex the exponent is one of 2 *)
FloatLit(s) ==
  LET hex == IsHex(s)
      from == IF hex THEN 3 ELSE 1
      base == IF hex THEN 16 ELSE 10
      set == IF hex THEN HexSet ELSE DecSet
      ip == SpanEnd(s, from, set)
      dot == ip < Len(s) /\ Ch(s, ip + 1) = "."
      fp == IF dot THEN SpanEnd(s, ip + 2, set) ELSE ip
      frac == IF dot THEN SubSeq(s, ip + 2, fp) ELSE ""
      digits == SubSeq(s, from, ip) \o frac
      hasExp == fp < Len(s) /\ Ch(s, fp + 1) \in {"e", "E", "p", "P"}
      signed == hasExp /\ Ch(s, fp + 2) \in {"-", "+"}
      neg == signed /\ Ch(s, fp + 2) = "-"
      ef == IF signed THEN fp + 3 ELSE fp + 2
      exp == IF hasExp THEN WToInt(WParse(SubSeq(s, ef, SpanEnd(s, ef, DecSet)), 10)) ELSE 0
      m == WParse(digits, base)
      eb == IF hex THEN 2 ELSE 10
      fd == WPow(base, Len(frac))
  IN IF neg THEN FltV(m, WMul(fd, WPow(eb, exp))) ELSE FltV(WMul(m, WPow(eb, exp)), fd)

Escapes == "abfnrtv"
EscapeVal == <<7, 8, 12, 10, 13, 9, 11>>
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiVal == [c \in CharSet(Ascii) |-> (CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c) + 31]
OctSet == CharSet("01234567")

RECURSIVE CharsFrom(_, _, _)
CharsFrom(s, j, end) == \* the bytes that s[j..end] stands for
  IF j > end THEN <<>>
  ELSE IF Ch(s, j) # "\\" THEN <<AsciiVal[Ch(s, j)]>> \o CharsFrom(s, j + 1, end)
  ELSE LET c == Ch(s, j + 1)
       IN IF c = "x" THEN LET e == SpanEnd(s, j + 2, HexSet)
                          IN <<WToInt(WParse(SubSeq(s, j + 2, e), 16)) % 256>> \o CharsFrom(s, e + 1, end)
          ELSE IF c \in OctSet THEN LET e0 == SpanEnd(s, j + 1, OctSet)
                                        e == IF e0 > j + 3 THEN j + 3 ELSE e0
                                    IN <<WToInt(WParse(SubSeq(s, j + 1, e), 8)) % 256>> \o CharsFrom(s, e + 1, end)
          ELSE <<IF c \in CharSet(Escapes) THEN EscapeVal[CHOOSE i \in 1..7 : Ch(Escapes, i) = c] ELSE AsciiVal[c]>>
               \o CharsFrom(s, j + 2, end)
QuoteAt(s) == IF Ch(s, 1) \in {"'", "\""} THEN 1 ELSE IF Ch(s, 2) \in {"'", "\""} THEN 2 ELSE 3
Bytes(s) == CharsFrom(s, QuoteAt(s) + 1, Len(s) - 1)
CharLit(s) == LET b == Bytes(s) IN IF Len(b) # 1 THEN NoVal ELSE SmallV(IF b[1] >= 128 THEN b[1] - 256 ELSE b[1])

(* -------------------------------------------------------------- operators *)
CPrec == [o \in {"||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%"} |->
  CASE o = "||" -> 1 [] o = "&&" -> 2 [] o = "|" -> 3 [] o = "^" -> 4 [] o = "&" -> 5
    [] o \in {"==", "!="} -> 6 [] o \in {"<", ">", "<=", ">="} -> 7 [] o \in {"<<", ">>"} -> 8
    [] o \in {"+", "-"} -> 9 [] o \in {"*", "/", "%"} -> 10]
GoPrec == [o \in {"|", "^", "&", "<<", ">>", "+", "-", "*", "/", "%"} |->
  IF o \in {"+", "-", "|", "^"} THEN 4 ELSE 5]

Truth(b) == SmallV(IF b THEN 1 ELSE 0)
IsTrue(v) == v.n # WZero

(* Overflow of signed types has no meaning in C. *)
Result(n, ty, wrap) ==
  IF ~wrap THEN IntV(n, ty)
  ELSE IF ty \in {"i", "l"} /\ ~FitsIn(n, ty) THEN NoVal ELSE IntV(Wrap(n, ty), ty)

IntOp(op, a, b, wrap) ==
  LET ty == IF op \in {"<<", ">>"} THEN a.ty ELSE Common(a.ty, b.ty)
      x == IF wrap /\ ~(op \in {"<<", ">>"}) THEN Wrap(a.n, ty) ELSE a.n
      y == IF wrap /\ ~(op \in {"<<", ">>"}) THEN Wrap(b.n, ty) ELSE b.n
      R(n) == Result(n, ty, wrap)
      \* an amount C and Go agree on
      amount == IF WLess(y, WZero) \/ ~WLess(y, WInt(IF wrap /\ a.ty \in {"i", "u"} THEN 32 ELSE 64)) THEN -1 ELSE WToInt(y)
  IN CASE op \in {"<<", ">>"} /\ amount < 0 -> NoVal
       [] op = "+" -> R(WAdd(x, y)) [] op = "-" -> R(WSub(x, y)) [] op = "*" -> R(WMul(x, y))
       [] op = "/" -> IF y = WZero THEN NoVal ELSE R(WDivMod(x, y).q)
       [] op = "%" -> IF y = WZero THEN NoVal ELSE R(WDivMod(x, y).r)
       [] op \in {"&", "|", "^"} -> R(WBit(op, x, y))
       [] op = "<<" -> R(WShl(x, amount)) [] op = ">>" -> R(WShr(x, amount))
       [] op = "==" -> Truth(x = y) [] op = "!=" -> Truth(x # y)
       [] op = "<" -> Truth(WLess(x, y)) [] op = ">" -> Truth(WLess(y, x))
       [] op = "<=" -> Truth(~WLess(y, x)) [] op = ">=" -> Truth(~WLess(x, y))
       [] op = "&&" -> Truth(a.n # WZero /\ b.n # WZero) [] op = "||" -> Truth(a.n # WZero \/ b.n # WZero)

AsFlt(v) == IF v.k = "int" THEN FltV(v.n, WInt(1)) ELSE v
FltOp(op, a, b) ==
  CASE op = "+" -> FltV(WAdd(WMul(a.n, b.d), WMul(b.n, a.d)), WMul(a.d, b.d))
    [] op = "-" -> FltV(WSub(WMul(a.n, b.d), WMul(b.n, a.d)), WMul(a.d, b.d))
    [] op = "*" -> FltV(WMul(a.n, b.n), WMul(a.d, b.d))
    [] op = "/" -> IF b.n = WZero THEN NoVal ELSE IF WNegative(b.n) THEN FltV(WNeg(WMul(a.n, b.d)), WMul(a.d, WNeg(b.n)))
                   ELSE FltV(WMul(a.n, b.d), WMul(a.d, b.n))
    [] OTHER -> NoVal

BinOp(op, a, b, wrap) ==
  IF "none" \in {a.k, b.k} \/ "str" \in {a.k, b.k} THEN
    (IF a.k = "str" /\ b.k = "str" /\ op = "+" THEN StrV(a.s \o b.s) ELSE NoVal)
  ELSE IF "flt" \in {a.k, b.k} THEN FltOp(op, AsFlt(a), AsFlt(b))
  ELSE IntOp(op, a, b, wrap)

UnOp(op, a, wrap) ==
  CASE a.k = "int" ->
       LET R(n) == Result(n, a.ty, wrap)
       IN (CASE op = "-" -> R(WNeg(a.n)) [] op = "+" -> a [] op \in {"~", "^"} -> R(WNot(a.n))
             [] op = "!" -> Truth(a.n = WZero))
    [] a.k = "flt" -> (CASE op = "-" -> FltV(WNeg(a.n), a.d) [] op = "+" -> a [] OTHER -> NoVal)
    [] OTHER -> NoVal

(* ------------------------------------------------------------- evaluation *)
(* l: the language, [prec, wrap, types] with the values of types for casts;      *)
(* env: values of identifiers. Results carry the position after what was read.    *)
At(tk, p) == IF p <= Len(tk) THEN tk[p].s ELSE ""
IsT(tk, p, t) == p <= Len(tk) /\ tk[p].t = t
R2(v, p) == [v |-> v, p |-> p]
Bad(tk) == R2(NoVal, Len(tk) + 2)
TypeOf(l, tk) == IF tk.t = "y" THEN tk.s ELSE IF tk.s \in DOMAIN l.types THEN l.types[tk.s] ELSE ""

RECURSIVE Unary(_, _, _, _), Binary(_, _, _, _, _), BinLoop(_, _, _, _, _), Expr(_, _, _, _), StrLoop(_, _, _)
Unary(l, env, tk, p) ==
  IF p > Len(tk) THEN Bad(tk)
  ELSE LET x == tk[p] IN
  CASE x.t = "n" -> R2(IF IsFloat(x.s) THEN FloatLit(x.s) ELSE IntLit(x.s), p + 1)
    [] x.t = "v" -> R2(x.v, p + 1)
    [] x.t = "c" -> R2(CharLit(x.s), p + 1)
    [] x.t = "s" -> StrLoop(tk, p + 1, Bytes(x.s))
    [] x.t = "i" -> IF x.s \in DOMAIN env THEN R2(env[x.s], p + 1) ELSE Bad(tk)
    [] x.t = "z" -> IF At(tk, p + 1) = "(" /\ At(tk, p + 3) = ")" /\ TypeOf(l, tk[p + 2]) # ""
                    THEN R2(IntV(WInt(SizeOf[TypeOf(l, tk[p + 2])]), "ul"), p + 4) ELSE Bad(tk)
    [] x.t = "o" /\ x.s \in {"-", "+", "~", "!", "^"} /\ x.s \in l.unary ->
         LET r == Unary(l, env, tk, p + 1) IN R2(UnOp(x.s, r.v, l.wrap), r.p)
    [] x.t = "o" /\ x.s = "(" ->
         IF p + 2 <= Len(tk) /\ At(tk, p + 2) = ")" /\ tk[p + 1].t \in {"y", "i"} /\ TypeOf(l, tk[p + 1]) # ""
         THEN LET r == Unary(l, env, tk, p + 3) IN R2(Convert(r.v, TypeOf(l, tk[p + 1])), r.p)
         ELSE LET r == Expr(l, env, tk, p + 1) IN IF At(tk, r.p) = ")" THEN R2(r.v, r.p + 1) ELSE Bad(tk)
    [] OTHER -> Bad(tk)
StrLoop(tk, p, acc) == IF IsT(tk, p, "s") THEN StrLoop(tk, p + 1, acc \o Bytes(tk[p].s)) ELSE R2(StrV(acc), p)
BinLoop(l, env, tk, left, min) ==
  LET op == At(tk, left.p) IN
  IF IsT(tk, left.p, "o") /\ op \in DOMAIN l.prec /\ l.prec[op] >= min
  THEN LET r == Binary(l, env, tk, left.p + 1, l.prec[op] + 1)
       IN BinLoop(l, env, tk, R2(BinOp(op, left.v, r.v, l.wrap), r.p), min)
  ELSE left
Binary(l, env, tk, p, min) == BinLoop(l, env, tk, Unary(l, env, tk, p), min)
Expr(l, env, tk, p) == \* with the conditional operator
  LET c == Binary(l, env, tk, p, 1) IN
  IF l.wrap /\ At(tk, c.p) = "?" /\ c.v.k = "int"
  THEN LET a == Expr(l, env, tk, c.p + 1)
           b == Expr(l, env, tk, a.p + 1)
       IN IF At(tk, a.p) # ":" THEN Bad(tk)
          ELSE IF a.v.k = "int" /\ b.v.k = "int"
               THEN LET ty == Common(a.v.ty, b.v.ty) IN R2(IntV(Wrap(IF IsTrue(c.v) THEN a.v.n ELSE b.v.n, ty), ty), b.p)
               ELSE R2(IF IsTrue(c.v) THEN a.v ELSE b.v, b.p)
  ELSE c

Whole(l, env, tk) == LET r == Expr(l, env, tk, 1) IN IF r.p = Len(tk) + 1 THEN r.v ELSE NoVal
CLang(types) == [prec |-> CPrec, wrap |-> TRUE, unary |-> {"-", "+", "~", "!"}, types |-> types]
GoLang(types) == [prec |-> GoPrec, wrap |-> FALSE, unary |-> {"-", "+", "^"}, types |-> types]

(* ------------------------------------------------------- macros, as C does *)
RECURSIVE Expand(_, _, _)
Expand(macros, tk, hidden) ==
  IF tk = <<>> THEN <<>>
  ELSE LET x == tk[1] IN
       (IF x.t = "i" /\ x.s \in DOMAIN macros /\ ~(x.s \in hidden)
        THEN Expand(macros, macros[x.s], hidden \cup {x.s}) ELSE <<x>>)
       \o Expand(macros, Tail(tk), hidden)

CEval(types, macros, env, tk) == Whole(CLang(types), env, Expand(macros, tk, {}))

(* -------------------------------------------------- the way of c-for-go *)
T(s) == [t |-> "o", s |-> s]
InParens(tk) == <<T("(")>> \o tk \o <<T(")")>>
RECURSIVE RwUnary(_, _, _), RwBinary(_, _, _, _), RwLoop(_, _, _, _)
RP(tk, prec, p) == [tk |-> tk, prec |-> prec, p |-> p]
None == RP(<<>>, 0, 0)
RwUnary(tk, p, types) ==
  IF p > Len(tk) THEN None
  ELSE LET x == tk[p] IN
  CASE x.t \in {"n", "v", "c", "i"} -> RP(<<x>>, 6, p + 1)
    [] x.t = "s" -> IF IsT(tk, p + 1, "s")
                    THEN LET r == RwUnary(tk, p + 1, types) IN RP(<<x, T("+")>> \o r.tk, 4, r.p)
                    ELSE RP(<<x>>, 6, p + 1)
    [] x.t = "o" /\ x.s \in {"-", "+", "~"} ->
         LET r == RwUnary(tk, p + 1, types)
         IN IF r = None THEN None
            ELSE RP(<<T(IF x.s = "~" THEN "^" ELSE x.s)>> \o (IF r.prec < 6 THEN InParens(r.tk) ELSE r.tk), 6, r.p)
    [] x.t = "o" /\ x.s = "(" ->
         IF IsT(tk, p + 1, "i") /\ tk[p + 1].s \in DOMAIN types /\ At(tk, p + 2) = ")"
         THEN LET r == RwUnary(tk, p + 3, types)
              IN IF r = None THEN None ELSE RP(<<T("("), tk[p + 1], T(")"), T("(")>> \o r.tk \o <<T(")")>>, 6, r.p)
         ELSE LET r == RwBinary(tk, p + 1, 1, types)
              IN IF r = None \/ At(tk, r.p) # ")" THEN None ELSE RP(InParens(r.tk), 6, r.p + 1)
    [] OTHER -> None
RwLoop(tk, left, min, types) ==
  IF left = None THEN None
  ELSE LET op == At(tk, left.p) IN
  IF IsT(tk, left.p, "o") /\ op \in DOMAIN GoPrec /\ CPrec[op] >= min
  THEN LET r == RwBinary(tk, left.p + 1, CPrec[op] + 1, types)
       IN IF r = None THEN None
          ELSE RwLoop(tk, RP((IF left.prec < GoPrec[op] THEN InParens(left.tk) ELSE left.tk) \o <<T(op)>>
                             \o (IF r.prec <= GoPrec[op] THEN InParens(r.tk) ELSE r.tk), GoPrec[op], r.p), min, types)
  ELSE left
RwBinary(tk, p, min, types) == RwLoop(tk, RwUnary(tk, p, types), min, types)
Rewrite(tk, types) == LET r == RwBinary(tk, 1, 1, types) IN IF r = None \/ r.p # Len(tk) + 1 THEN <<>> ELSE r.tk

(* A macro can be named in Go where it stands for an operand; else its tokens are. *)
RECURSIVE IsOperand(_, _, _), Closed(_, _, _), Inline(_, _, _)
Closed(tk, j, depth) == \* no operator outside of parens
  IF j = Len(tk) THEN TRUE
  ELSE LET d == depth + (IF tk[j].s = "(" THEN 1 ELSE IF tk[j].s = ")" THEN -1 ELSE 0)
       IN d > 0 /\ Closed(tk, j + 1, d)
IsOperand(macros, tk, fuel) ==
  IF tk = <<>> THEN FALSE
  ELSE IF Len(tk) > 1 /\ tk[1].t = "o" /\ tk[1].s \in {"-", "+", "~"} THEN IsOperand(macros, Tail(tk), fuel)
  ELSE IF Len(tk) = 1
       THEN ~(tk[1].t = "i" /\ tk[1].s \in DOMAIN macros) \/ fuel = 0 \/ IsOperand(macros, macros[tk[1].s], fuel - 1)
       ELSE Closed(tk, 1, 0)
Inline(macros, tk, hidden) ==
  IF tk = <<>> THEN <<>>
  ELSE LET x == tk[1] IN
       (IF x.t = "i" /\ x.s \in DOMAIN macros /\ ~(x.s \in hidden)
           /\ ~IsOperand(macros, <<x>>, Cardinality(DOMAIN macros))
        THEN Inline(macros, macros[x.s], hidden \cup {x.s}) ELSE <<x>>)
       \o Inline(macros, Tail(tk), hidden)
GoTokens(macros, name, tk) == IF Len(tk) < 2 THEN tk ELSE Inline(macros, tk, {name})

GoEval(types, env, tk, rewritten) == Whole(GoLang(types), env, rewritten)
=============================================================================
