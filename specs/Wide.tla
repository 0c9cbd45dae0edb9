------------------------------- MODULE Wide -------------------------------
(* Integers of 96 bits in two's complement, as sequences of W bytes with the    *)
(* least significant byte first. TLC's own integers have 32 bits only.            *)
EXTENDS Integers, Sequences, Strings

W == 12
(* Tuples are written out: TLC evaluates them at once, other than functions. *)
Tup(F(_)) == <<F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8), F(9), F(10), F(11), F(12)>>
WZero == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
WNegative(a) == a[W] >= 128

RECURSIVE BytesOf(_, _)
BytesOf(n, j) == IF j > W THEN <<>> ELSE <<n % 256>> \o BytesOf(n \div 256, j + 1)
WInt(n) == BytesOf(n, 1)  \* floor division and modulo sign-extend

Sum(a, b, c) ==
  LET s1 == a[1] + b[1] + c
      s2 == a[2] + b[2] + s1 \div 256
      s3 == a[3] + b[3] + s2 \div 256
      s4 == a[4] + b[4] + s3 \div 256
      s5 == a[5] + b[5] + s4 \div 256
      s6 == a[6] + b[6] + s5 \div 256
      s7 == a[7] + b[7] + s6 \div 256
      s8 == a[8] + b[8] + s7 \div 256
      s9 == a[9] + b[9] + s8 \div 256
      s10 == a[10] + b[10] + s9 \div 256
      s11 == a[11] + b[11] + s10 \div 256
      s12 == a[12] + b[12] + s11 \div 256
  IN <<s1 % 256, s2 % 256, s3 % 256, s4 % 256, s5 % 256, s6 % 256, s7 % 256, s8 % 256, s9 % 256, s10 % 256, s11 % 256, s12 % 256>>
WAdd(a, b) == Sum(a, b, 0)
WNot(a) == LET F(j) == 255 - a[j] IN Tup(F)
WNeg(a) == Sum(WNot(a), WZero, 1)
WSub(a, b) == Sum(a, WNot(b), 1)

RECURSIVE Bit(_, _, _, _)
Bit(op, x, y, k) == \* of two bytes
  IF k = 0 THEN 0
  ELSE 2 * Bit(op, x \div 2, y \div 2, k - 1) +
       (LET p == x % 2  q == y % 2
        IN CASE op = "&" -> p * q [] op = "|" -> IF p + q > 0 THEN 1 ELSE 0 [] op = "^" -> (p + q) % 2)
WBit(op, a, b) == LET F(j) == Bit(op, a[j], b[j], 8) IN Tup(F)

(* a * n for a small n >= 0 *)
WScale(a, n) ==
  LET s1 == a[1] * n
      s2 == a[2] * n + s1 \div 256
      s3 == a[3] * n + s2 \div 256
      s4 == a[4] * n + s3 \div 256
      s5 == a[5] * n + s4 \div 256
      s6 == a[6] * n + s5 \div 256
      s7 == a[7] * n + s6 \div 256
      s8 == a[8] * n + s7 \div 256
      s9 == a[9] * n + s8 \div 256
      s10 == a[10] * n + s9 \div 256
      s11 == a[11] * n + s10 \div 256
      s12 == a[12] * n + s11 \div 256
  IN <<s1 % 256, s2 % 256, s3 % 256, s4 % 256, s5 % 256, s6 % 256, s7 % 256, s8 % 256, s9 % 256, s10 % 256, s11 % 256, s12 % 256>>

Shifted(a, k) == LET F(j) == IF j > k THEN a[j - k] ELSE 0 IN Tup(F)  \* by k bytes
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, j) == IF j > W THEN WZero ELSE IF b[j] = 0 THEN MulFrom(a, b, j + 1)
                    ELSE WAdd(Shifted(WScale(a, b[j]), j - 1), MulFrom(a, b, j + 1))
WMul(a, b) == MulFrom(a, b, 1)

Pow2 == [j \in 0..8 |-> CASE j = 0 -> 1 [] j = 1 -> 2 [] j = 2 -> 4 [] j = 3 -> 8 [] j = 4 -> 16
                         [] j = 5 -> 32 [] j = 6 -> 64 [] j = 7 -> 128 [] j = 8 -> 256]
WShl(a, n) == IF n >= 8 * W THEN WZero ELSE WScale(Shifted(a, n \div 8), Pow2[n % 8])
(* arithmetic: the sign is kept *)
WShr(a, n) ==
  LET fill == IF WNegative(a) THEN 255 ELSE 0
      at(j) == IF j > W THEN fill ELSE a[j]
      k == n \div 8  s == n % 8
      F(j) == (at(j + k) + 256 * at(j + k + 1)) \div Pow2[s] % 256
  IN Tup(F)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, j) == IF j = 0 THEN 0 ELSE IF a[j] # b[j] THEN (IF a[j] < b[j] THEN -1 ELSE 1) ELSE CmpFrom(a, b, j - 1)
WCmp(a, b) == IF WNegative(a) # WNegative(b) THEN (IF WNegative(a) THEN -1 ELSE 1) ELSE CmpFrom(a, b, W)
WLess(a, b) == WCmp(a, b) < 0
WAbs(a) == IF WNegative(a) THEN WNeg(a) ELSE a

(* Schoolbook division of numbers >= 0, byte by byte from the top. *)
RECURSIVE Fits(_, _, _, _)
Fits(r, b, lo, hi) == \* the largest q in lo..hi with q * b <= r
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF WLess(r, WScale(b, m)) THEN Fits(r, b, lo, m - 1) ELSE Fits(r, b, m, hi)
Byte(x) == LET F(j) == IF j = 1 THEN x ELSE 0 IN Tup(F)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, r, q, j) ==
  IF j = 0 THEN [q |-> q, r |-> r]
  ELSE LET r1 == WAdd(Shifted(r, 1), Byte(a[j]))
           d == IF WLess(r1, b) THEN 0 ELSE Fits(r1, b, 1, 255)
       IN DivFrom(a, b, WSub(r1, WScale(b, d)), <<d>> \o q, j - 1)
WDivMod(a, b) == \* truncates towards zero, as C and Go do
  LET x == DivFrom(WAbs(a), WAbs(b), WZero, <<>>, W)
  IN [q |-> IF WNegative(a) # WNegative(b) THEN WNeg(x.q) ELSE x.q,
      r |-> IF WNegative(a) THEN WNeg(x.r) ELSE x.r]

(* Reduction to n bytes, with or without sign. *)
WTrunc(a, n, signed) ==
  LET neg == signed /\ a[n] >= 128
      F(j) == IF j <= n THEN a[j] ELSE IF neg THEN 255 ELSE 0
  IN Tup(F)

(* Small numbers only. *)
WToInt(a) == LET m == WAbs(a)  v == m[1] + 256 * m[2] + 65536 * m[3] IN IF WNegative(a) THEN -v ELSE v

HexDigits == "0123456789abcdef"
DigitVal == [c \in CharSet(HexDigits) |-> (CHOOSE i \in 1..16 : Ch(HexDigits, i) = c) - 1]
RECURSIVE ParseFrom(_, _, _, _)
ParseFrom(s, base, acc, j) ==
  IF j > Len(s) THEN acc
  ELSE ParseFrom(s, base, WAdd(WScale(acc, base), WInt(DigitVal[LoCh(Ch(s, j))])), j + 1)
WParse(s, base) == ParseFrom(s, base, WZero, 1)  \* digits only
WParseSigned(s) == IF HasPrefix(s, "-") THEN WNeg(WParse(SubSeq(s, 2, Len(s)), 10)) ELSE WParse(s, 10)

RECURSIVE DigitsOf(_)
DigitsOf(a) == IF a = WZero THEN "" ELSE LET x == WDivMod(a, WInt(10)) IN DigitsOf(x.q) \o Ch(Digits, x.r[1] + 1)
WShow(a) == IF a = WZero THEN "0" ELSE IF WNegative(a) THEN "-" \o DigitsOf(WNeg(a)) ELSE DigitsOf(a)
=============================================================================
