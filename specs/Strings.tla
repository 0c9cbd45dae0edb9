---------------------------- MODULE Strings ----------------------------
(* Characters and strings, as far as the specification needs them. *)
EXTENDS Integers, Sequences, TLC

Lowers == "abcdefghijklmnopqrstuvwxyz"
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"

Ch(s, i) == SubSeq(s, i, i)
CharSet(s) == {Ch(s, i) : i \in 1..Len(s)}

LowerSet == CharSet(Lowers)
UpperSet == CharSet(Uppers)
ToUpMap == [c \in LowerSet |-> Ch(Uppers, CHOOSE i \in 1..26 : Ch(Lowers, i) = c)]
ToLoMap == [c \in UpperSet |-> Ch(Lowers, CHOOSE i \in 1..26 : Ch(Uppers, i) = c)]

UpCh(c) == IF c \in LowerSet THEN ToUpMap[c] ELSE c
LoCh(c) == IF c \in UpperSet THEN ToLoMap[c] ELSE c

RECURSIVE UpperFrom(_, _)
UpperFrom(s, i) == IF i > Len(s) THEN "" ELSE UpCh(Ch(s, i)) \o UpperFrom(s, i + 1)
Upper(s) == UpperFrom(s, 1)

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN "" ELSE LoCh(Ch(s, i)) \o LowerFrom(s, i + 1)
Lower(s) == LowerFrom(s, 1)

Capital(s) == IF s = "" THEN s ELSE UpCh(Ch(s, 1)) \o SubSeq(s, 2, Len(s))
Uncapital(s) == IF s = "" THEN s ELSE LoCh(Ch(s, 1)) \o SubSeq(s, 2, Len(s))

HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* Position of the last occurrence of character c in s, 0 if there is none. *)
RECURSIVE LastIndexFrom(_, _, _)
LastIndexFrom(s, c, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastIndexFrom(s, c, i - 1)
LastIndex(s, c) == LastIndexFrom(s, c, Len(s))

(* Path operations on "/"-separated paths without trailing slash. *)
BaseName(p) == SubSeq(p, LastIndex(p, "/") + 1, Len(p))
DirName(p) == LET i == LastIndex(p, "/") IN IF i = 0 THEN "." ELSE IF i = 1 THEN "/" ELSE SubSeq(p, 1, i - 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == JoinFrom(ss, sep, 1)

(* Strings are compared byte-wise, as Go does; only these characters occur. *)
Order == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrderSet == CharSet(Order)
OrderMap == [c \in OrderSet |-> CHOOSE i \in 1..Len(Order) : Ch(Order, i) = c]
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN LessFrom(a, b, i + 1)
  ELSE OrderMap[Ch(a, i)] < OrderMap[Ch(b, i)]
StrLess(a, b) == LessFrom(a, b, 1)

(* Concatenation of a sequence of sequences. *)
RECURSIVE FlatFrom(_, _)
FlatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatFrom(ss, i + 1)
Flat(ss) == FlatFrom(ss, 1)

MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN Ch(Digits, n + 1) ELSE NatStr(n \div 10) \o Ch(Digits, (n % 10) + 1)
IntStr(n) == IF n < 0 THEN "-" \o NatStr(0 - n) ELSE NatStr(n)
=============================================================================
