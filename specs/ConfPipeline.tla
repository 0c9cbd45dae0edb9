---------------------------- MODULE ConfPipeline ----------------------------
(* The outcome of real runs of the tool against the pipeline machine.               *)
EXTENDS Pipeline, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
Init == \E j \in 1..Len(Cases) : i = j /\ verdict = "todo" /\ InitWith(Cases[j].in)

(* files are flushed in no particular order: take them in one, and when one cannot  *)
(* be written it may come first or last                                             *)
OneFlush == /\ step = "flush" /\ CanFlush(Cur) /\ Blocked(Cur) = {} /\ bufs # {}
            /\ files' = {g \in files : g.path \notin Paths(bufs)} \cup bufs
            /\ bufs' = {} /\ UNCHANGED <<x, step, argi, todo, dirs, code>>
Det == NoArgs \/ Resolve \/ Start \/ Load \/ Parse \/ Learn \/ Generate \/ OneFlush \/ FlushDone \/ FlushFail \/ FlushStuck

Judge ==
  /\ Finished /\ verdict = "todo"
  /\ LET o == Cases[i].obs
         \* without cgo the helper file is of no use; whether it is there is left open
         Drop(fs) == IF x.nocgo THEN {f \in fs : BaseName(f.path) # "cgo_helpers.go"} ELSE fs
         got == Drop({o.files[j] : j \in 1..Len(o.files)})
         want == Drop(files)
         may == bufs \ (IF bufs = {} THEN {} ELSE Blocked(Cur))
         ok == o.code = code /\ want \subseteq got /\ got \subseteq (want \cup may)
     IN /\ PrintT("@@" \o ToJson([done |-> TRUE, i |-> i, ok |-> ok,
              diff |-> IF ok THEN <<>> ELSE [code |-> <<code, o.code>>, missing |-> want \ got, extra |-> got \ want]]))
        /\ verdict' = IF ok THEN "ok" ELSE "bad"
  /\ UNCHANGED <<vars, i>>
ConfNext == (verdict = "todo" /\ ~Finished /\ Det /\ UNCHANGED <<i, verdict>>) \/ Judge
Spec == Init /\ [][ConfNext]_<<vars, i, verdict>>
=============================================================================
