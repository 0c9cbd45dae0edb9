-------------------------------- MODULE Runs --------------------------------
(* What is on disk after any number of runs.                                      *)
(*   x.memo   for every <<configuration, variant>> the files that a run of it        *)
(*            alone puts into an empty directory: <<path, content>>                  *)
(*   x.steps  what happens, one after the other:                                     *)
(*              [do |-> "run", args |-> sequence of <<configuration, variant>>]        *)
(*              [do |-> "write", path, content]    somebody writes a file              *)
(*              [do |-> "remove", path]            somebody removes a file             *)
(* A variant is the part of the command line that says what to generate (no cgo).   *)
(* A run goes through its arguments one by one. It generates what it would generate *)
(* alone, whatever went before it, in this or in another run, overwrites the files   *)
(* of the same name and leaves all others.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES x, k, a, disk
vars == <<x, k, a, disk>>

InitWith(y) == x = y /\ k = 1 /\ a = 0 /\ disk = {}
Finished == k > Len(x.steps)
Step == x.steps[k]

Names(fs) == {f[1] : f \in fs}
Over(d, fs) == {f \in d : f[1] \notin Names(fs)} \cup fs
Memo(arg) == LET m == CHOOSE m \in x.memo : m.arg = arg IN m.files

Generate == /\ ~Finished /\ Step.do = "run" /\ a < Len(Step.args)
            /\ a' = a + 1 /\ disk' = Over(disk, Memo(Step.args[a + 1]))
            /\ UNCHANGED <<x, k>>
Exit == /\ ~Finished /\ Step.do = "run" /\ a = Len(Step.args)
        /\ k' = k + 1 /\ a' = 0 /\ UNCHANGED <<x, disk>>
Edit == /\ ~Finished /\ Step.do # "run"
        /\ disk' = IF Step.do = "write" THEN Over(disk, {<<Step.path, Step.content>>}) ELSE {f \in disk : f[1] # Step.path}
        /\ k' = k + 1 /\ UNCHANGED <<x, a>>
Next == Generate \/ Exit \/ Edit

(* ---------------------------------------------------------------- properties *)
OneEach == \A f, g \in disk : f[1] = g[1] => f = g
(* What was generated last is there as if it had been generated alone. *)
AsAlone == (~Finished /\ Step.do = "run" /\ a > 0) => Memo(Step.args[a]) \subseteq disk
(* Doing it again changes nothing. *)
Idempotent == (~Finished /\ Step.do = "run" /\ a > 0) => Over(disk, Memo(Step.args[a])) = disk
(* A step changes only the files it is about. *)
OnlyItsOwn == [][\A f \in disk : f \notin disk' =>
   IF Step.do = "run" THEN a < Len(Step.args) /\ f[1] \in Names(Memo(Step.args[a + 1])) ELSE f[1] = Step.path]_vars
=============================================================================
