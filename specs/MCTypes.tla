------------------------------ MODULE MCTypes -------------------------------
(* Looking through typedefs step by step, for every chain of three typedefs over *)
(* a few leaves, every use of them, every pointer and type tip; then a signature  *)
(* with every combination of pointer tips.                                        *)
EXTENDS Types
CT(b, p, c, arr) == [b |-> b, p |-> p, c |-> c, arr |-> arr]
Al(to, acc) == [k |-> "alias", acc |-> acc, to |-> to, cgo |-> "", mem |-> ""]
Leaf(k, acc) == [k |-> k, acc |-> acc, to |-> CT("void", 0, FALSE, <<>>), cgo |-> "", mem |-> ""]
Opts(cc, l) == [constchar |-> cc, constuchar |-> FALSE, long64 |-> l, tmap |-> <<>>]

VARIABLES env, opts, t0, t, named, ptip, ttip, phase, f, sig
vars == <<env, opts, t0, t, named, ptip, ttip, phase, f, sig>>

Bases == {"char", "ulong", "zqS"}
Init ==
  /\ phase = "pick" /\ f = [name |-> "", ret |-> CT("void", 0, FALSE, <<>>), params |-> <<>>] /\ sig = NewSig
  /\ \E b \in Bases, p1, p2 \in 0..1, arr \in {<<>>, <<2>>}, a1, a2, a3 \in BOOLEAN, cc \in BOOLEAN, l \in BOOLEAN, k \in {"struct", "handle"} :
       /\ (arr = <<>> \/ (p1 = 0 /\ p2 = 0))
       /\ env = [n \in {"zA", "zB", "zC", "zqS"} |->
            CASE n = "zqS" -> Leaf(k, a1)
              [] n = "zA" -> Al(CT(b, p1, FALSE, <<>>), a1)
              [] n = "zB" -> Al(CT("zA", p2, FALSE, <<>>), a2)
              [] n = "zC" -> Al(CT("zB", 0, FALSE, arr), a3)]
       /\ opts = Opts(cc, l)
  /\ t0 = CT("zA", 0, FALSE, <<>>) /\ t = t0 /\ ptip = "" /\ ttip = "" /\ named = FALSE
Pick ==
  /\ phase = "pick" /\ phase' = "peel"
  /\ \E b \in {"zA", "zB", "zC"}, p \in 0..2, c \in BOOLEAN, arr \in {<<>>, <<3>>} :
       /\ (arr = <<>> \/ p = 0) /\ (c => p > 0)
       /\ t0' = CT(b, p, c, arr)
  /\ t' = t0' /\ ptip' \in {"arr", "ref", "sref"} /\ ttip' \in {"named", "plain"} /\ named' = (ttip' # "plain")
  /\ UNCHANGED <<env, opts, f, sig>>

PeelStep ==
  /\ phase = "peel" /\ Transparent(env, t, named)
  /\ t' = Through(env, t) /\ named' = (named /\ Derived(env, t.b))
  /\ UNCHANGED <<env, opts, t0, ptip, ttip, phase, f, sig>>
Sigs ==
  /\ phase = "peel" /\ ~Transparent(env, t, named) /\ t0.arr = <<>>
  /\ phase' = "sig"
  /\ f' = [name |-> "zF", ret |-> CT("int", 0, FALSE, <<>>), params |-> <<[name |-> "a", t |-> t0], [name |-> "b", t |-> CT("int", 1, FALSE, <<>>)], [name |-> "c", t |-> t0]>>]
  /\ UNCHANGED <<env, opts, t0, t, named, ptip, ttip, sig>>
L(w) == [k |-> "seq", ns |-> [j \in 1..Len(w) |-> [k |-> "lit", c |-> Ch(w, j)]]]
Tip(a, b, c) == <<[scope |-> "function", target |-> L("zF"), tips |-> <<a, b, c>>, self |-> "", dflt |-> ""]>>
PT == Tip(ptip, "inst", "inst")
Sig ==
  /\ phase = "sig" /\ ~SigDone(f, sig)
  /\ sig' = SigStep(env, opts, PT, <<>>, f, sig)
  /\ UNCHANGED <<env, opts, t0, t, named, ptip, ttip, phase, f>>
Next == Pick \/ PeelStep \/ Sigs \/ Sig
Spec == Init /\ [][Next]_vars

(* marks in front of a Go type *)
RECURSIVE Marks(_)
Marks(s) == IF s = "" THEN 0
            ELSE IF HasPrefix(s, "[]") THEN 1 + Marks(SubSeq(s, 3, Len(s)))
            ELSE IF HasPrefix(s, "*") THEN 1 + Marks(SubSeq(s, 2, Len(s)))
            ELSE IF HasPrefix(s, "[") THEN Marks(SubSeq(s, 4, Len(s)))
            ELSE 0
G(x, pt) == GoType(env, opts, x, pt, ttip)
Total(x) == Peel(env, x, ttip # "plain").p
(* nothing is lost on the way: the steps do not change what is to come out *)
Conserved == phase = "peel" => Peel(env, t, named) = Peel(env, t0, ttip # "plain")
Str == IsString(Peel(env, t0, ttip # "plain"), opts, ttip)
Levelled == phase = "peel" => Marks(G(t0, ptip)) = Total(t0) - (IF Str THEN 1 ELSE 0)
NoPlainNames == (phase = "peel" /\ ttip = "plain") => ~\E n \in {"zA", "zB", "zC"} : HasSuffix(G(t0, ptip), n)
OnlyAccepted == phase = "peel" => \A n \in {"zA", "zB", "zC"} : HasSuffix(G(t0, ptip), n) => env[n].acc
(* pointer tips shape the levels and nothing else *)
TipsShape == phase = "peel" => \A q \in {"arr", "ref", "sref"} : Marks(G(t0, q)) = Marks(G(t0, ptip))
OneReceiver == Len(sig.recv) <= 1 /\ (SigDone(f, sig) /\ phase = "sig" => Len(sig.recv) = 1 /\ sig.recv[1].n = "b" /\ Len(sig.params) = 1 /\ Len(sig.results) = 1)
Shrinks == [][phase = "peel" /\ phase' = "peel" => t'.b # t.b]_vars
=============================================================================
