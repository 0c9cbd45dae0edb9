------------------------------ MODULE Pipeline ------------------------------
(* A run of the command line tool: resolve every argument to a configuration,     *)
(* then process the configurations one by one - load, parse, learn, generate,     *)
(* flush - until one fails.                                                        *)
(*                                                                                 *)
(* An argument is [kind, path, cfg, present]: kind "file" names configuration cfg;  *)
(* kind "dir" is a directory holding the configurations in the function present     *)
(* (candidate file name -> configuration, "" when that name is a directory);         *)
(* kind "missing" does not exist.  A configuration is a record of what is right and  *)
(* wrong with it:                                                                     *)
(*   yaml, gen, pkg, src, rx, out : see Load, Parse, Learn, Flush (out is "ok", the  *)
(*           name of a file that cannot be written, or else no directory can be made)  *)
(*   feats : what its headers declare (accepted by its rules); doc : has text for     *)
(*           doc.go                                                                   *)
EXTENDS Strings, Sequences, FiniteSets

VARIABLES
  x,        \* the input: [args, cfgs, nocgo, out]
  step,     \* "resolve", "load", "parse", "learn", "generate", "flush", "exit"
  argi,     \* next argument to resolve
  todo,     \* configurations still to process (head is the current one)
  bufs,     \* what the current configuration is about to write
  files,    \* files written so far: [path, pkg, hasC]
  dirs,     \* packages whose flush completed
  code      \* exit status

vars == <<x, step, argi, todo, bufs, files, dirs, code>>

Candidates(path) == <<"c-for-go.yaml", "c-for-go.yml", BaseName(path) \o ".yaml", BaseName(path) \o ".yml">>

(* the first candidate that is there and is a file; "" if there is none *)
RECURSIVE PickFrom(_, _, _)
PickFrom(present, cs, i) ==
  IF i > Len(cs) THEN ""
  ELSE IF cs[i] \in DOMAIN present /\ present[cs[i]] # "" THEN present[cs[i]]
  ELSE PickFrom(present, cs, i + 1)

InitWith(in) ==
  /\ x = in /\ step = "resolve" /\ argi = 1 /\ todo = <<>> /\ bufs = {} /\ files = {} /\ dirs = {} /\ code = "none"

Cur == x.cfgs[Head(todo)]

Fail ==
  /\ step' = "exit" /\ code' = "failure" /\ bufs' = {} /\ UNCHANGED <<x, argi, todo, files, dirs>>

NoArgs == step = "resolve" /\ Len(x.args) = 0 /\ Fail

Resolve ==
  /\ step = "resolve" /\ argi <= Len(x.args)
  /\ LET a == x.args[argi]
         c == CASE a.kind = "missing" -> ""
                [] a.kind = "file" -> a.cfg
                [] a.kind = "dir" -> PickFrom(a.present, Candidates(a.path), 1)
     IN IF c = "" THEN Fail
        ELSE /\ todo' = Append(todo, c) /\ argi' = argi + 1
             /\ UNCHANGED <<x, step, bufs, files, dirs, code>>

Start ==
  /\ step = "resolve" /\ argi > Len(x.args) /\ Len(x.args) > 0
  /\ step' = "load" /\ UNCHANGED <<x, argi, todo, bufs, files, dirs, code>>

Load ==
  /\ step = "load"
  /\ IF todo = <<>> THEN step' = "exit" /\ code' = "success" /\ UNCHANGED <<x, argi, todo, bufs, files, dirs>>
     ELSE IF Cur.yaml /\ Cur.gen THEN step' = "parse" /\ UNCHANGED <<x, argi, todo, bufs, files, dirs, code>>
     ELSE Fail

Parse ==
  /\ step = "parse"
  /\ IF Cur.src = "ok" THEN step' = "learn" /\ UNCHANGED <<x, argi, todo, bufs, files, dirs, code>>
     ELSE Fail

Learn ==
  /\ step = "learn"
  /\ IF Cur.rx = "ok" /\ Cur.pkg # "" THEN step' = "generate" /\ UNCHANGED <<x, argi, todo, bufs, files, dirs, code>>
     ELSE Fail

(* What is generated needs helper code of one kind or another. *)
ConstFeats == {"macro", "enum", "cvar"}
TypeFeats == {"typedef", "struct", "union", "callback"}
GoHelp(fs) == fs \cap (IF x.nocgo THEN {"struct", "callback"} ELSE {"struct", "callback", "fnarg", "fnstr", "fnret"}) # {}

Entry(c, name, hasC) ==
  [path |-> x.out \o c.pkg \o "/" \o name, pkg |-> IF HasSuffix(name, ".go") THEN BaseName(c.pkg) ELSE "", hasC |-> hasC]

Generated(c) ==
  LET fs == {c.feats[i] : i \in 1..Len(c.feats)}
      When(b, name, hasC) == IF b THEN {Entry(c, name, hasC)} ELSE {}
  IN   When(c.doc, "doc.go", FALSE)
  \cup When(fs \cap ConstFeats # {}, "const.go", ~x.nocgo)
  \cup When(fs \cap TypeFeats # {}, "types.go", ~x.nocgo)
  \cup When(~x.nocgo, BaseName(c.pkg) \o ".go", TRUE)
  \cup When(GoHelp(fs), "cgo_helpers.go", TRUE)
  \cup When(~x.nocgo, "cgo_helpers.h", FALSE)
  \cup When(~x.nocgo /\ "callback" \in fs, "cgo_helpers.c", FALSE)

Generate ==
  /\ step = "generate"
  /\ bufs' = Generated(Cur) /\ step' = "flush"
  /\ UNCHANGED <<x, argi, todo, files, dirs, code>>

Paths(fs) == {f.path : f \in fs}

(* Flushing writes one file after another, in any order, until one cannot be       *)
(* written; without a directory there are none.                                     *)
Names == {"doc.go", "const.go", "types.go", "main", "cgo_helpers.go", "cgo_helpers.h", "cgo_helpers.c"}
FileNamed(c) == IF c.out = "main" THEN BaseName(c.pkg) \o ".go" ELSE c.out
Blocked(c) == IF c.out \in Names THEN {f \in Generated(c) : BaseName(f.path) = FileNamed(c)} ELSE {}
CanFlush(c) == c.out = "ok" \/ c.out \in Names

FlushFile ==
  /\ step = "flush" /\ CanFlush(Cur)
  /\ \E f \in bufs \ Blocked(Cur) :
       /\ files' = {g \in files : g.path # f.path} \cup {f}
       /\ bufs' = bufs \ {f}
  /\ UNCHANGED <<x, step, argi, todo, dirs, code>>

FlushDone ==
  /\ step = "flush" /\ CanFlush(Cur) /\ bufs = {}
  /\ dirs' = dirs \cup {Head(todo)}
  /\ todo' = Tail(todo) /\ step' = "load"
  /\ UNCHANGED <<x, argi, bufs, files, code>>

FlushFail == step = "flush" /\ ~CanFlush(Cur) /\ Fail
(* what was not written yet is kept in mind *)
FlushStuck ==
  /\ step = "flush" /\ CanFlush(Cur) /\ Blocked(Cur) \cap bufs # {}
  /\ step' = "exit" /\ code' = "failure" /\ UNCHANGED <<x, argi, todo, bufs, files, dirs>>

Next == NoArgs \/ Resolve \/ Start \/ Load \/ Parse \/ Learn \/ Generate \/ FlushFile \/ FlushDone \/ FlushFail \/ FlushStuck
Finished == step = "exit"

(* ---------------------------------------------------------------- properties *)
(* Success means every argument was processed completely.                           *)
SuccessIsComplete == (Finished /\ code = "success") =>
   /\ Len(x.args) > 0
   /\ \A c \in dirs : Paths(Generated(x.cfgs[c])) \subseteq Paths(files)
   /\ todo = <<>>

(* A configuration that fails leaves nothing of its own (unless another one wrote   *)
(* the same package), and nothing is written before all arguments are resolved.     *)
Owned(c) == Paths(Generated(x.cfgs[c]))
FailureIsClean == (Finished /\ code = "failure" /\ bufs = {}) => \A f \in files : \E c \in dirs : f.path \in Owned(c)
(* One of whose files one cannot be written may leave some of the others.           *)
StuckIsPartial == (Finished /\ bufs # {}) =>
   /\ code = "failure" /\ Blocked(Cur) # {} /\ Blocked(Cur) \subseteq bufs
   /\ \A f \in files : (\E c \in dirs : f.path \in Owned(c)) \/ f \in Generated(Cur)
ResolveFirst == step = "resolve" => files = {}
FilesGrow == [][Paths(files) \subseteq Paths(files')]_vars
=============================================================================
