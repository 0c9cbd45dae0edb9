------------------------------- MODULE Lookup -------------------------------
(* Reading the C sources: where the listed source files and the files they         *)
(* include are found, and which macros are predefined.                             *)
(*                                                                                  *)
(* Paths are sequences of segments relative to the working directory.  The input:    *)
(*   files   : sequence of [path, lines]; a line is one of                            *)
(*               [k |-> "def", id]              contents that can be recognised        *)
(*               [k |-> "inc", quote, name]     #include "name" or <name>              *)
(*               [k |-> "if", cond, name, v, id]   contents under #ifdef, #ifndef,      *)
(*                                                 or #if name == v                     *)
(*   srcs    : SourcesPaths;  inc, sys : IncludePaths, SysIncludePaths                   *)
(*   opts    : PkgConfigOpts: packages and options;  cfgdir : of the configuration        *)
(*   pkgs    : what pkg-config knows: [name, dirs, req]                                   *)
(*   defs    : user's Defines [n, t, v];  t is "empty" for a define without value          *)
(*   host    : what the host compiler says [ok, defs, quote, sys]; ccdefs, ccincl : flags   *)
EXTENDS Strings, Sequences, FiniteSets

VARIABLES x, step, queue, srcs, stack, seen, ids, code
vars == <<x, step, queue, srcs, stack, seen, ids, code>>

RECURSIVE CleanFrom(_, _, _)
CleanFrom(p, i, acc) ==
  IF i > Len(p) THEN acc
  ELSE IF p[i] = "." \/ p[i] = "" THEN CleanFrom(p, i + 1, acc)
  ELSE IF p[i] = ".." /\ acc # <<>> /\ acc[Len(acc)] # ".." THEN CleanFrom(p, i + 1, SubSeq(acc, 1, Len(acc) - 1))
  ELSE CleanFrom(p, i + 1, Append(acc, p[i]))
Clean(p) == CleanFrom(p, 1, <<>>)
PathJoin(d, n) == Clean(d \o n)
Parent(p) == SubSeq(p, 1, Len(p) - 1)

Exists(p) == \E i \in 1..Len(x.files) : x.files[i].path = Clean(p)
LinesOf(p) == x.files[CHOOSE i \in 1..Len(x.files) : x.files[i].path = p].lines

(* ------------------------------------------------------------- where to look *)
HostOK == (x.ccdefs \/ x.ccincl) /\ x.host.ok
HostQuote == IF HostOK /\ x.ccincl THEN x.host.quote ELSE <<>>
HostSys == IF HostOK /\ x.ccincl THEN x.host.sys ELSE <<>>
(* The directories of the packages that are asked for, each package's own before  *)
(* those of what it requires; what pkg-config doesn't know contributes nothing.    *)
Known(n) == \E i \in 1..Len(x.pkgs) : x.pkgs[i].name = n
Pkg(n) == x.pkgs[CHOOSE i \in 1..Len(x.pkgs) : x.pkgs[i].name = n]
RECURSIVE Visit(_, _)
Visit(names, acc) ==
  IF names = <<>> THEN acc
  ELSE LET n == Head(names)
       IN Visit(Tail(names), IF n \in acc.seen \/ ~Known(n) THEN acc
                             ELSE Visit(Pkg(n).req, [seen |-> acc.seen \cup {n}, dirs |-> acc.dirs \o Pkg(n).dirs]))
PkgDirs == Visit(x.opts, [seen |-> {}, dirs |-> <<>>]).dirs
UserPaths == x.inc \o PkgDirs \o <<x.cfgdir>>

SourcePlaces == <<<<>>>> \o UserPaths
QuotePlaces(from) == <<Parent(from)>> \o HostQuote \o UserPaths
AnglePlaces == HostSys \o x.sys

(* the first place that has it *)
RECURSIVE FirstIn(_, _, _)
FirstIn(places, name, i) ==
  IF i > Len(places) THEN <<>>
  ELSE IF Exists(PathJoin(places[i], name)) THEN <<PathJoin(places[i], name)>>
  ELSE FirstIn(places, name, i + 1)

(* ---------------------------------------------------------- predefined macros *)
UserDefs == {x.defs[i] : i \in 1..Len(x.defs)}
HostDefs == IF HostOK /\ x.ccdefs THEN {x.host.defs[i] : i \in 1..Len(x.host.defs)} ELSE {}
Predefined == UserDefs \cup {d \in HostDefs : \A u \in UserDefs : u.n # d.n}
Constants == {[n |-> d.n, t |-> d.t, v |-> d.v] : d \in {d \in Predefined : d.t # "empty" /\ HasPrefix(d.n, "ZQ")}}

Holds(l) ==
  LET ds == {d \in Predefined : d.n = l.name}
  IN CASE l.cond = "ifdef" -> ds # {}
       [] l.cond = "ifndef" -> ds = {}
       [] l.cond = "if" -> \E d \in ds : d.t = "int" /\ d.v = l.v
       [] l.cond = "defined" -> ds # {}

(* -------------------------------------------------------------------- machine *)
InitWith(in) == /\ x = in /\ step = "find" /\ queue = in.srcs /\ srcs = <<>> /\ stack = <<>>
                /\ seen = {} /\ ids = {} /\ code = "none"

Fail == step' = "exit" /\ code' = "failure" /\ stack' = <<>> /\ UNCHANGED <<x, queue, srcs, seen, ids>>

FindSource ==
  /\ step = "find" /\ queue # <<>>
  /\ LET f == FirstIn(SourcePlaces, Head(queue), 1)
     IN IF f = <<>> THEN Fail
        ELSE IF \E j \in 1..Len(srcs) : srcs[j] = f[1]
        THEN \* the same file twice: the front end refuses it; left open
             step' = "exit" /\ code' = "unspecified" /\ UNCHANGED <<x, queue, srcs, stack, seen, ids>>
        ELSE /\ srcs' = srcs \o f /\ queue' = Tail(queue)
             /\ UNCHANGED <<x, step, stack, seen, ids, code>>
AllFound == step = "find" /\ queue = <<>> /\ step' = "read" /\ UNCHANGED <<x, queue, srcs, stack, seen, ids, code>>

Enter(p) == /\ stack' = Append(stack, [p |-> p, i |-> 1]) /\ seen' = seen \cup {p}

NextSource ==
  /\ step = "read" /\ stack = <<>> /\ srcs # <<>>
  /\ srcs' = Tail(srcs)
  /\ IF Head(srcs) \in seen THEN UNCHANGED <<stack, seen>> ELSE Enter(Head(srcs))
  /\ UNCHANGED <<x, step, queue, ids, code>>

Top == stack[Len(stack)]
Advance(s) == [s EXCEPT ![Len(s)].i = @ + 1]

ReadLine ==
  /\ step = "read" /\ stack # <<>>
  /\ LET ls == LinesOf(Top.p)
     IN IF Top.i > Len(ls)
        THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<x, step, queue, srcs, seen, ids, code>>
        ELSE LET l == ls[Top.i]
             IN CASE l.k = "def" -> ids' = ids \cup {l.id} /\ stack' = Advance(stack) /\ UNCHANGED <<x, step, queue, srcs, seen, code>>
                  [] l.k = "if" -> /\ ids' = IF Holds(l) THEN ids \cup {l.id} ELSE ids
                                   /\ stack' = Advance(stack) /\ UNCHANGED <<x, step, queue, srcs, seen, code>>
                  [] l.k = "inc" ->
                       LET f == FirstIn(IF l.quote THEN QuotePlaces(Top.p) ELSE AnglePlaces, l.name, 1)
                       IN IF f = <<>> THEN Fail
                          ELSE /\ stack' = IF f[1] \in seen THEN Advance(stack)
                                           ELSE Append(Advance(stack), [p |-> f[1], i |-> 1])
                               /\ seen' = seen \cup {f[1]}
                               /\ UNCHANGED <<x, step, queue, srcs, ids, code>>

Done == step = "read" /\ stack = <<>> /\ srcs = <<>> /\ step' = "exit" /\ code' = "success" /\ UNCHANGED <<x, queue, srcs, stack, seen, ids>>

Next == FindSource \/ AllFound \/ NextSource \/ ReadLine \/ Done
Finished == step = "exit"

(* ----------------------------------------------------------------- properties *)
OnlyRealFiles == \A p \in seen : Exists(p)
(* a source beside the caller hides every other one of that name, and the directory  *)
(* of the configuration is the last resort                                            *)
LocalFirst == \A i \in 1..Len(srcs) : \A j \in 1..Len(x.srcs) :
                (srcs[i] = PathJoin(x.cfgdir, x.srcs[j]) /\ x.cfgdir # <<>>) =>
                  \/ ~Exists(x.srcs[j])
                  \/ \E k \in 1..Len(x.srcs) : FirstIn(SourcePlaces, x.srcs[k], 1) = <<srcs[i]>>
UserWins == \A u \in UserDefs : \A d \in Predefined : d.n = u.n => d = u
SeenGrows == [][seen \subseteq seen' /\ ids \subseteq ids']_vars
=============================================================================
