------------------------------ MODULE Preamble ------------------------------
(* What stands at the top of each generated file, written section by section.        *)
(* A configuration: license, description (sequences of lines), pkg (package name),     *)
(* pkgconfig, groups (sequence of [name, traits, flags]), sys, inc : as in GENERATOR;   *)
(* stamp : whether the time of generation is wanted.                                     *)
EXTENDS Strings, Sequences

VARIABLES x, kind, sec, head, body
vars == <<x, kind, sec, head, body>>
(* kind: "doc" doc.go, "go" with cgo, "plain" without, "h", "c"                           *)

Kinds == {"doc", "go", "plain", "h", "c"}

Lines(ss) == SelectSeq(ss, LAMBDA s : s # "")
Label == << IF x.stamp THEN "WARNING: This file has automatically been generated on <now>."
                       ELSE "WARNING: This file has automatically been generated",
            "Code generated by https://git.io/c-for-go. DO NOT EDIT." >>

Group(g) == IF g.name = "" \/ g.flags = <<>> THEN <<>>
            ELSE << "#cgo " \o (IF g.traits = <<>> THEN "" ELSE Join(g.traits, " ") \o " ") \o g.name \o ": " \o Join(g.flags, " ") >>
PkgConfig == IF x.pkgconfig = <<>> THEN <<>> ELSE << "#cgo pkg-config: " \o Join(x.pkgconfig, " ") >>
Sys == [i \in 1..Len(x.sys) |-> "#include <" \o x.sys[i] \o ">"]
Quoted == [i \in 1..Len(x.inc) |-> "#include \"" \o x.inc[i] \o "\""]
Std == IF \E i \in 1..Len(x.sys) : x.sys[i] = "stdlib.h" THEN <<>> ELSE <<"#include <stdlib.h>">>
Own == <<"#include \"cgo_helpers.h\"">>

Order5 == CASE kind = "doc" -> <<"license", "label", "description">>
            [] kind = "plain" -> <<"license", "label">>
            [] kind = "go" -> <<"license", "label", "pkgconfig", "groups", "sys", "quoted", "std", "own">>
            [] kind = "h" -> <<"license", "label", "sys", "quoted", "std", "once">>
            [] kind = "c" -> <<"license", "label", "export", "own">>

InitWith(in, k) == x = in /\ kind = k /\ sec = 1 /\ head = <<>> /\ body = <<>>

Write ==
  /\ sec <= Len(Order5)
  /\ LET s == Order5[sec]
     IN CASE s = "license" -> head' = head \o Lines(x.license) /\ UNCHANGED body
          [] s = "label" -> head' = head \o Label /\ UNCHANGED body
          [] s = "description" -> head' = head \o Lines(x.description) /\ UNCHANGED body
          [] s = "pkgconfig" -> body' = body \o PkgConfig /\ UNCHANGED head
          [] s = "groups" -> body' = body \o Flat([i \in 1..Len(x.groups) |-> Group(x.groups[i])]) /\ UNCHANGED head
          [] s = "sys" -> body' = body \o Sys /\ UNCHANGED head
          [] s = "quoted" -> body' = body \o Quoted /\ UNCHANGED head
          [] s = "std" -> body' = body \o Std /\ UNCHANGED head
          [] s = "own" -> body' = body \o Own /\ UNCHANGED head
          [] s = "once" -> body' = body \o <<"#pragma once">> /\ UNCHANGED head
          [] s = "export" -> body' = body \o <<"#include \"_cgo_export.h\"">> /\ UNCHANGED head
  /\ sec' = sec + 1 /\ UNCHANGED <<x, kind>>

Next == Write
Finished == sec > Len(Order5)

(* ----------------------------------------------------------------- properties *)
Count(s, e) == Len(SelectSeq(s, LAMBDA y : y = e))
Marked == Finished => Count(head, "Code generated by https://git.io/c-for-go. DO NOT EDIT.") >= 1
StdlibOnce == Finished /\ kind \in {"go", "h"} /\ (\A i, j \in 1..Len(x.sys) : x.sys[i] = x.sys[j] => i = j) =>
                 Count(body, "#include <stdlib.h>") = 1
OwnHeaderLast == Finished /\ kind \in {"go", "c"} => body[Len(body)] = "#include \"cgo_helpers.h\""
NoCgoInPlain == kind \in {"doc", "plain"} => body = <<>>
EveryInclude == Finished /\ kind \in {"go", "h"} => \A i \in 1..Len(x.inc) : Count(body, "#include \"" \o x.inc[i] \o "\"") >= 1
OnlyGrows == [][Len(head') >= Len(head) /\ SubSeq(head', 1, Len(head)) = head /\ SubSeq(body', 1, Len(body)) = body]_vars
=============================================================================
