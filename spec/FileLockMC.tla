----------------------------- MODULE FileLockMC -----------------------------
(***************************************************************************)
(* Locking a file from several threads of several processes: each process  *)
(* has a table of the names it locked; the system has POSIX record locks,  *)
(* owned by processes, which vanish when the process closes ANY descriptor *)
(* of the file.  One file; every system call and every table operation is  *)
(* a step; opening and locking may fail; processes may exit at any moment. *)
(* Variants (the first value is the code's):                               *)
(*   Begin = "insert" | "open"     what locking does first                 *)
(*   Fail = "close" | "remove"     what a failing lock undoes first        *)
(*   End = "close" | "remove"      what unlocking does first, after        *)
(*                                 releasing the record lock               *)
(*   Table = TRUE | FALSE          the process's own table is consulted    *)
(*   Undo = TRUE | FALSE           a failed open is taken out of the table *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Procs, PerProc, Ops, Faults, Exits, Begin, Fail, End, Table, Undo
VARIABLES os,      \* process owning the record lock, 0: none
          tab,     \* processes with the name in their table
          fds,     \* process -> number of open descriptors of the file
          th,      \* thread -> [pc, n]
          live, faults, exits
vars == <<os, tab, fds, th, live, faults, exits>>
Threads == Procs \X (1..PerProc)
Init == /\ os = 0 /\ tab = {} /\ fds = [p \in Procs |-> 0] /\ th = [t \in Threads |-> [pc |-> "idle", n |-> Ops]]
        /\ live = Procs /\ faults = Faults /\ exits = Exits
Go(t, l) == th' = [th EXCEPT ![t].pc = l]
At(t, l) == th[t].pc = l /\ t[1] \in live
Rest == UNCHANGED <<live, exits>>
Start(t) == /\ At(t, "idle") /\ th[t].n > 0
            /\ th' = [th EXCEPT ![t] = [pc |-> Begin, n |-> @.n - 1]] /\ UNCHANGED <<os, tab, fds, faults>> /\ Rest
Insert(t) ==
  /\ At(t, "insert")
  /\ (IF Table /\ t[1] \in tab
      THEN UNCHANGED tab /\ Go(t, IF Begin = "open" THEN "closeonly" ELSE "idle")
      ELSE tab' = tab \cup {t[1]} /\ Go(t, IF Begin = "open" THEN "setlk" ELSE "open"))
  /\ UNCHANGED <<os, fds, faults>> /\ Rest
Open(t) ==
  /\ At(t, "open")
  /\ \/ /\ fds' = [fds EXCEPT ![t[1]] = @ + 1] /\ Go(t, IF Begin = "open" THEN "insert" ELSE "setlk") /\ UNCHANGED faults
     \/ /\ faults > 0 /\ faults' = faults - 1 /\ UNCHANGED fds /\ Go(t, IF Begin = "insert" /\ Undo THEN "removeonly" ELSE "idle")
  /\ UNCHANGED <<os, tab>> /\ Rest
SetLk(t) ==
  /\ At(t, "setlk")
  /\ \/ /\ os \in {0, t[1]} /\ os' = t[1] /\ Go(t, "hold") /\ UNCHANGED faults
     \/ /\ os \notin {0, t[1]} /\ UNCHANGED <<os, faults>> /\ Go(t, IF Fail = "close" THEN "close" ELSE "remove")
     \/ /\ faults > 0 /\ faults' = faults - 1 /\ UNCHANGED os /\ Go(t, IF Fail = "close" THEN "close" ELSE "remove")
  /\ UNCHANGED <<tab, fds>> /\ Rest
Unlk(t) ==
  /\ At(t, "hold") /\ os' = (IF os = t[1] THEN 0 ELSE os)
  /\ Go(t, IF End = "close" THEN "close" ELSE "remove") /\ UNCHANGED <<tab, fds, faults>> /\ Rest
\* closing any descriptor of the file releases the process's record lock
Closing(t, l) == /\ fds' = [fds EXCEPT ![t[1]] = @ - 1] /\ os' = (IF os = t[1] THEN 0 ELSE os)
                 /\ Go(t, l) /\ UNCHANGED <<tab, faults>> /\ Rest
Removing(t, l) == /\ tab' = tab \ {t[1]} /\ Go(t, l) /\ UNCHANGED <<os, fds, faults>> /\ Rest
Close(t) == At(t, "close") /\ Closing(t, "removeonly")
Remove(t) == At(t, "remove") /\ Removing(t, "closeonly")
CloseOnly(t) == At(t, "closeonly") /\ Closing(t, "idle")
RemoveOnly(t) == At(t, "removeonly") /\ Removing(t, "idle")
Exit(p) ==
  /\ p \in live /\ exits > 0 /\ exits' = exits - 1 /\ live' = live \ {p}
  /\ os' = (IF os = p THEN 0 ELSE os) /\ fds' = [fds EXCEPT ![p] = 0] /\ tab' = tab \ {p}
  /\ UNCHANGED <<th, faults>>
Next == (\E t \in Threads : Start(t) \/ Insert(t) \/ Open(t) \/ SetLk(t) \/ Unlk(t) \/ Close(t) \/ Remove(t) \/ CloseOnly(t) \/ RemoveOnly(t))
        \/ \E p \in Procs : Exit(p)
Spec == Init /\ [][Next]_vars
Holders == {t \in Threads : At(t, "hold")}
AtMostOne == Cardinality(Holders) <= 1
InForce == \A t \in Holders : os = t[1]
Quiet == \A t \in Threads : t[1] \in live => th[t].pc \in {"idle", "hold"}
\* nothing is leaked, and the lock can be taken when nobody holds it
Clean == Quiet => \A p \in live : LET h == {t \in Holders : t[1] = p} IN
           /\ fds[p] = Cardinality(h) /\ (p \in tab <=> h # {})
Available == (Quiet /\ Holders = {}) => os = 0 /\ tab = {}
\* no call ever waits
Prompt == \A t \in Threads : t[1] \in live /\ th[t].pc \notin {"idle", "hold"} =>
  ENABLED (Insert(t) \/ Open(t) \/ SetLk(t) \/ Close(t) \/ Remove(t) \/ CloseOnly(t) \/ RemoveOnly(t))
=============================================================================
