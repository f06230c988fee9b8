----------------------------- MODULE ServicesMC -----------------------------
(***************************************************************************)
(* The environment's services: the time of day as one number, sleeping in  *)
(* spite of signals, and a directory per user for tests.                   *)
(*   Wide   the time is computed in numbers that hold it (else modulo Word)*)
(*   Again  after a signal sleep for the "rest", the "full" time, or "none"*)
(*   Key    the directory is named after the whole user number, or modulo  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Wide, Again, Key, N, Signals, U, Word, Users, MaxTime
VARIABLES clock,    \* time, in the smallest unit; U of them are a second
          now,      \* the last answer about the time, -1 for none
          at,       \* when it was asked
          pc, began, until, sigs,   \* a sleep of N
          dirs      \* user -> name given out, -1 for none
vars == <<clock, now, at, pc, began, until, sigs, dirs>>
Init == /\ clock = 0 /\ now = -1 /\ at = 0 /\ pc = "awake" /\ began = 0 /\ until = 0 /\ sigs = 0
        /\ dirs = [u \in Users |-> -1]
Sum == LET s == clock \div U
           r == clock % U
       IN IF Wide THEN s * U + r ELSE ((s * U) % Word) + r
Tick == clock < MaxTime /\ clock' = clock + 1 /\ (pc = "asleep" => clock < until + 1)
        /\ UNCHANGED <<now, at, pc, began, until, sigs, dirs>>
Ask == now' = Sum /\ at' = clock /\ UNCHANGED <<clock, pc, began, until, sigs, dirs>>
Sleep == pc = "awake" /\ pc' = "asleep" /\ began' = clock /\ until' = clock + N /\ UNCHANGED <<clock, now, at, sigs, dirs>>
Signal == /\ pc = "asleep" /\ sigs < Signals /\ clock < until /\ sigs' = sigs + 1
          /\ IF Again = "none" THEN pc' = "slept" /\ UNCHANGED until
             ELSE until' = (IF Again = "full" THEN clock + N ELSE until) /\ UNCHANGED pc
          /\ UNCHANGED <<clock, now, at, began, dirs>>
Wake == pc = "asleep" /\ clock >= until /\ pc' = "slept" /\ UNCHANGED <<clock, now, at, began, until, sigs, dirs>>
Return == pc = "slept" /\ pc' = "awake" /\ UNCHANGED <<clock, now, at, began, until, sigs, dirs>>
Dir(u) == dirs' = [dirs EXCEPT ![u] = IF Key = "whole" THEN u ELSE u % 2] /\ UNCHANGED <<clock, now, at, pc, began, until, sigs>>
Next == Tick \/ Ask \/ Sleep \/ Signal \/ Wake \/ Return \/ \E u \in Users : Dir(u)
Spec == Init /\ [][Next]_vars
TimeRight == now = -1 \/ now = at
SleptEnough == pc = "slept" => clock - began >= N
NotTooLong == pc = "asleep" => until - began <= N
OwnDir == \A u, v \in Users : u # v /\ dirs[u] # -1 => dirs[u] # dirs[v]
=============================================================================
