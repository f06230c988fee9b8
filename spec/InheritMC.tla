----------------------------- MODULE InheritMC ------------------------------
(***************************************************************************)
(* Descriptors and programs started by the process.  Threads open and      *)
(* close descriptors; at any moment the process may start a program, which *)
(* gets every descriptor not marked to be closed.                          *)
(*   Mark  "open"   marked by the call that opens it                       *)
(*         "later"  marked by a second call                                *)
(*         "never"                                                         *)
(*   Some  only this many threads mark (the others open "never")           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Mark, Marking, Fds, Programs
VARIABLES fd,      \* descriptor -> "free", "marked" or "bare"
          th,      \* thread -> descriptor it holds, 0 for none
          started, \* programs started
          got      \* descriptors some program was given
vars == <<fd, th, started, got>>
Init == fd = [x \in Fds |-> "free"] /\ th = [t \in Threads |-> 0] /\ started = 0 /\ got = {}
Free == {x \in Fds : fd[x] = "free"}
Lowest == CHOOSE x \in Free : \A y \in Free : x <= y
Open(t) == /\ th[t] = 0 /\ Free # {} /\ th' = [th EXCEPT ![t] = Lowest]
           /\ fd' = [fd EXCEPT ![Lowest] = IF Mark = "open" /\ t \in Marking THEN "marked" ELSE "bare"]
           /\ UNCHANGED <<started, got>>
SetMark(t) == /\ Mark = "later" /\ t \in Marking /\ th[t] # 0 /\ fd[th[t]] = "bare"
              /\ fd' = [fd EXCEPT ![th[t]] = "marked"] /\ UNCHANGED <<th, started, got>>
Close(t) == /\ th[t] # 0 /\ (Mark = "later" => fd[th[t]] = "marked")
            /\ fd' = [fd EXCEPT ![th[t]] = "free"] /\ th' = [th EXCEPT ![t] = 0] /\ UNCHANGED <<started, got>>
Start == /\ started < Programs /\ started' = started + 1
         /\ got' = got \cup {x \in Fds : fd[x] = "bare"} /\ UNCHANGED <<fd, th>>
Next == Start \/ \E t \in Threads : Open(t) \/ SetMark(t) \/ Close(t)
Spec == Init /\ [][Next]_vars
NoneInherited == got = {}
Held == \A t, u \in Threads : t # u /\ th[t] # 0 => th[t] # th[u]
=============================================================================
