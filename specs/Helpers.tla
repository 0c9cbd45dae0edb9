------------------------------ MODULE Helpers ------------------------------
(* The helper pipeline: the goroutine that translates declarations sends every     *)
(* helper that it comes to need, followed level by level by what that one needs,    *)
(* through a channel that holds one; a second goroutine writes each helper the      *)
(* first time it sees it.  At the end the first asks the second to close (an        *)
(* unbuffered channel) and waits until it has finished.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  needs,     \* helper -> sequence of helpers it requires (no cycles)
  todo,      \* submissions still to come
  level,     \* what is left of the current level of the submission
  below,     \* the next level, as collected so far
  chan,      \* the channel, at most one helper
  chopen,    \* the channel is open
  wpc,       \* "submit", "close", "wait", "gone": the translating goroutine
  mpc,       \* "loop", "done": the writing one
  written    \* what has been written, in order

vars == <<needs, todo, level, below, chan, chopen, wpc, mpc, written>>

InitWith(g, subs) ==
  /\ needs = g /\ todo = subs /\ level = <<>> /\ below = <<>> /\ chan = <<>> /\ chopen = TRUE
  /\ wpc = "submit" /\ mpc = "loop" /\ written = <<>>

Take == /\ wpc = "submit" /\ level = <<>> /\ below = <<>> /\ todo # <<>>
        /\ level' = <<Head(todo)>> /\ todo' = Tail(todo)
        /\ UNCHANGED <<needs, below, chan, chopen, wpc, mpc, written>>
Send == /\ wpc = "submit" /\ level # <<>> /\ chan = <<>>
        /\ chan' = <<Head(level)>> /\ below' = below \o needs[Head(level)] /\ level' = Tail(level)
        /\ UNCHANGED <<needs, todo, chopen, wpc, mpc, written>>
Down == /\ wpc = "submit" /\ level = <<>> /\ below # <<>>
        /\ level' = below /\ below' = <<>>
        /\ UNCHANGED <<needs, todo, chan, chopen, wpc, mpc, written>>
AllSent == /\ wpc = "submit" /\ level = <<>> /\ below = <<>> /\ todo = <<>> /\ wpc' = "close"
           /\ UNCHANGED <<needs, todo, level, below, chan, chopen, mpc, written>>
(* both at once; the other goroutine closes the channel, which keeps what it holds *)
Close == /\ wpc = "close" /\ mpc = "loop" /\ wpc' = "wait" /\ chopen' = FALSE
         /\ UNCHANGED <<needs, todo, level, below, chan, mpc, written>>
Receive == /\ mpc = "loop" /\ chan # <<>>
           /\ chan' = <<>>
           /\ written' = IF \E j \in 1..Len(written) : written[j] = chan[1] THEN written ELSE Append(written, chan[1])
           /\ UNCHANGED <<needs, todo, level, below, chopen, wpc, mpc>>
Finish == /\ mpc = "loop" /\ ~chopen /\ chan = <<>> /\ mpc' = "done"
          /\ UNCHANGED <<needs, todo, level, below, chan, chopen, wpc, written>>
Leave == /\ wpc = "wait" /\ mpc = "done" /\ wpc' = "gone"
         /\ UNCHANGED <<needs, todo, level, below, chan, chopen, mpc, written>>
Next == Take \/ Send \/ Down \/ AllSent \/ Close \/ Receive \/ Finish \/ Leave

(* ------------------------------------------------ what it comes to, alone *)
RECURSIVE Cat(_, _, _)
Cat(g, s, j) == IF j > Len(s) THEN <<>> ELSE g[s[j]] \o Cat(g, s, j + 1)
RECURSIVE Levels(_, _)
Levels(g, s) == IF s = <<>> THEN <<>> ELSE s \o Levels(g, Cat(g, s, 1))
RECURSIVE Sent(_, _, _)
Sent(g, subs, j) == IF j > Len(subs) THEN <<>> ELSE Levels(g, <<subs[j]>>) \o Sent(g, subs, j + 1)
RECURSIVE Dedup(_, _, _)
Dedup(s, j, acc) == IF j > Len(s) THEN acc
                    ELSE Dedup(s, j + 1, IF \E h \in 1..Len(acc) : acc[h] = s[j] THEN acc ELSE Append(acc, s[j]))
Order(g, subs) == Dedup(Sent(g, subs, 1), 1, <<>>)

Once == \A i, j \in 1..Len(written) : (written[i] = written[j]) => (i = j)
(* closed under needs when the translating goroutine goes on *)
Closed == wpc = "gone" => \A j \in 1..Len(written) : \A h \in 1..Len(needs[written[j]]) :
            \E m \in 1..Len(written) : written[m] = needs[written[j]][h]
=============================================================================
