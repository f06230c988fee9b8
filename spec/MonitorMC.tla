------------------------------ MODULE MonitorMC ------------------------------
(***************************************************************************)
(* The guarantees of Monitor are what programs need: a bounded buffer with *)
(* producers and consumers that recheck their condition in a loop never    *)
(* gets stuck, never overflows and loses nothing.  Wrong variants of the   *)
(* primitives (Wake, Atomic) and of the program (Recheck) must fail:       *)
(*   Atomic = FALSE   waiting releases the mutex before joining the waiters*)
(*   Wake = "none"    signals wake nobody                                  *)
(*   Wake = "stale"   signal wakes somebody woken already                  *)
(*   Excl = FALSE     the mutex admits anybody                             *)
(*   Hold = FALSE     waiting returns without the mutex                    *)
(*   All = FALSE      signal-all wakes only one                            *)
(*   Recheck = FALSE  the program does not look again after waiting        *)
(***************************************************************************)
EXTENDS Monitor, Sequences, TLC
CONSTANTS Prod, Cons, Each, Cap, Conds, UseAll, Atomic, Wake, Excl, Hold, All, Recheck
VARIABLES pc, left, buf, got, made, spur
vars == <<owner, of, cond, ws, pc, left, buf, got, made, spur>>
prog == <<pc, left, buf, got, made, spur>>
T == Prod \cup Cons
NotFull == 1                              \* with one condition both are the same
NotEmpty == IF Conds = 2 THEN 2 ELSE 1
Total == Cardinality(Prod) * Each
Init == /\ owner = <<0>> /\ of = [c \in 1..Conds |-> 1] /\ cond = [t \in T |-> 0] /\ ws = [t \in T |-> "run"]
        /\ pc = [t \in T |-> "lock"] /\ buf = <<>> /\ got = <<>> /\ made = 0 /\ spur = 1
        /\ left = [t \in T |-> IF t \in Prod THEN Each ELSE Total \div Cardinality(Cons)]
Full == Len(buf) >= Cap
Mine(t) == IF t \in Prod THEN NotFull ELSE NotEmpty
Theirs(t) == IF t \in Prod THEN NotEmpty ELSE NotFull
Blocked(t) == IF t \in Prod THEN Full ELSE buf = <<>>
Holds(t) == owner[1] = t
Lock(t) ==
  /\ pc[t] = "lock" /\ left[t] > 0
  /\ (IF Excl THEN Acquire(t, 1) ELSE owner' = [owner EXCEPT ![1] = t] /\ UNCHANGED <<of, cond, ws>>)
  /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<left, buf, got, made, spur>>
Look(t) ==
  /\ pc[t] = "look"
  /\ (IF Blocked(t)
      THEN (IF Atomic THEN CallWait(t, Mine(t)) ELSE owner' = [owner EXCEPT ![1] = 0] /\ cond' = [cond EXCEPT ![t] = Mine(t)] /\ ws' = [ws EXCEPT ![t] = "split"] /\ UNCHANGED of)
           /\ pc' = [pc EXCEPT ![t] = "waiting"]
      ELSE UNCHANGED monvars /\ pc' = [pc EXCEPT ![t] = "do"])
  /\ UNCHANGED <<left, buf, got, made, spur>>
Sleep(t) == /\ Enter(t) /\ UNCHANGED prog
SleepLate(t) == /\ ws[t] = "split" /\ ws' = [ws EXCEPT ![t] = "wait"] /\ UNCHANGED <<owner, of, cond>> /\ UNCHANGED prog
WakeUp(t) ==
  /\ (IF Hold THEN Return(t)
      ELSE ws[t] = "woken" /\ ws' = [ws EXCEPT ![t] = "run"] /\ cond' = [cond EXCEPT ![t] = 0] /\ UNCHANGED <<owner, of>>)
  /\ pc' = [pc EXCEPT ![t] = IF Recheck THEN "look" ELSE "do"] /\ UNCHANGED <<left, buf, got, made, spur>>
ByItself(t) == /\ spur > 0 /\ spur' = spur - 1 /\ Spurious(t) /\ UNCHANGED <<pc, left, buf, got, made>>
Do(t) ==
  /\ pc[t] = "do"
  /\ (IF t \in Prod THEN buf' = Append(buf, made + 1) /\ made' = made + 1 /\ UNCHANGED got
      ELSE /\ (IF buf = <<>> THEN got' = Append(got, 0) /\ UNCHANGED buf ELSE got' = Append(got, buf[1]) /\ buf' = Tail(buf))
           /\ UNCHANGED made)
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ pc' = [pc EXCEPT ![t] = "signal"] /\ UNCHANGED monvars /\ UNCHANGED spur
\* the last of a thread's operations announces itself to all, as UseAll does always
Sig(t) ==
  /\ pc[t] = "signal"
  /\ (CASE Wake = "none" -> UNCHANGED monvars
        [] UseAll /\ All -> SignalAll(Theirs(t))
        [] Wake = "stale" /\ (\E u \in T : ws[u] = "woken") -> UNCHANGED monvars
        [] OTHER -> Signal(Theirs(t)))
  /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<left, buf, got, made, spur>>
Unlock(t) ==
  /\ pc[t] = "unlock" /\ (IF Excl /\ Hold THEN Release(t, 1) ELSE owner' = [owner EXCEPT ![1] = 0] /\ UNCHANGED <<of, cond, ws>>)
  /\ pc' = [pc EXCEPT ![t] = "lock"] /\ UNCHANGED <<left, buf, got, made, spur>>
Step(t) == Lock(t) \/ Look(t) \/ Sleep(t) \/ SleepLate(t) \/ WakeUp(t) \/ Do(t) \/ Sig(t) \/ Unlock(t)
Next == \E t \in T : Step(t) \/ ByItself(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : SF_vars(Step(t))
Inside == {t \in T : pc[t] \in {"look", "do", "signal", "unlock"}}
Exclusion == Cardinality(Inside) <= 1
OwnerRight == \A t \in Inside : Holds(t)
Capacity == Len(buf) <= Cap
Fifo == \A i \in 1..Len(got) : got[i] = i
NoneStuck == (~ENABLED Next) => \A t \in T : left[t] = 0
Ends == <>(\A t \in T : left[t] = 0 /\ pc[t] = "lock")
=============================================================================
