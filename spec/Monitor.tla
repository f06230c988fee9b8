------------------------------- MODULE Monitor -------------------------------
(***************************************************************************)
(* Mutexes and condition variables, as their users rely on them: a mutex   *)
(* has at most one holder; waiting releases the mutex and joins the        *)
(* condition's waiters in one step; a signal moves one waiter (if there is *)
(* one), signal-all every waiter, to the woken; a woken thread returns     *)
(* once it holds the mutex again; a waiter may also wake by itself.        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
VARIABLES owner,   \* mutex -> thread holding it, 0: none
          of,      \* condition -> its mutex
          cond,    \* thread -> the condition it waits on (0: none)
          ws       \* thread -> "run", "enter" (called wait, still holding), "wait", "woken"
monvars == <<owner, of, cond, ws>>
Free(m) == owner[m] = 0
Waiters(c) == {t \in DOMAIN ws : ws[t] = "wait" /\ cond[t] = c}
Acquire(t, m) == /\ Free(m) /\ ws[t] = "run" /\ owner' = [owner EXCEPT ![m] = t] /\ UNCHANGED <<of, cond, ws>>
Release(t, m) == /\ owner[m] = t /\ ws[t] = "run" /\ owner' = [owner EXCEPT ![m] = 0] /\ UNCHANGED <<of, cond, ws>>
CallWait(t, c) == /\ ws[t] = "run" /\ owner[of[c]] = t
                  /\ ws' = [ws EXCEPT ![t] = "enter"] /\ cond' = [cond EXCEPT ![t] = c] /\ UNCHANGED <<owner, of>>
\* the mutex is released and the thread waits, in one step
Enter(t) == /\ ws[t] = "enter" /\ ws' = [ws EXCEPT ![t] = "wait"]
            /\ owner' = [owner EXCEPT ![of[cond[t]]] = 0] /\ UNCHANGED <<of, cond>>
Spurious(t) == /\ ws[t] = "wait" /\ ws' = [ws EXCEPT ![t] = "woken"] /\ UNCHANGED <<owner, of, cond>>
Signal(c) == IF Waiters(c) = {} THEN UNCHANGED monvars
             ELSE \E t \in Waiters(c) : ws' = [ws EXCEPT ![t] = "woken"] /\ UNCHANGED <<owner, of, cond>>
SignalAll(c) == /\ ws' = [t \in DOMAIN ws |-> IF t \in Waiters(c) THEN "woken" ELSE ws[t]] /\ UNCHANGED <<owner, of, cond>>
\* waiting returns, holding the mutex
Return(t) == /\ ws[t] = "woken" /\ Free(of[cond[t]])
             /\ owner' = [owner EXCEPT ![of[cond[t]]] = t]
             /\ ws' = [ws EXCEPT ![t] = "run"] /\ cond' = [cond EXCEPT ![t] = 0] /\ UNCHANGED of
=============================================================================
