---------------------------- MODULE PosixConcMC ----------------------------
(***************************************************************************)
(* Threads sharing the POSIX environment, at the grain of system calls:    *)
(* the environment is made on first use; files are opened by name while    *)
(* other threads rename and remove names; one random access file is read   *)
(* by all threads.  File f holds Size[f] bytes, byte i is <<f, i>>.        *)
(*   StatBy  what the size of the mapping is asked of ("fd" or "name")     *)
(*   Pos     reads give their own offset ("pread") or move a shared one    *)
(*           ("seek")                                                      *)
(*   First   the environment is made "once", or by every thread that saw   *)
(*           none ("checked")                                              *)
(*   Reopen  a read opens the file again by name                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, StatBy, Pos, First, Reopen, Renames, Reads
ASSUME StatBy \in {"fd", "name"} /\ Pos \in {"pread", "seek"} /\ First \in {"once", "checked"}
VARIABLES name,    \* what the name stands for: a file, 0 for nothing
          moved,   \* changes of the name so far
          envs,    \* environments made
          th,      \* thread -> [pc, env, f, len, off, n, got, left]
          pos      \* offset of the shared descriptor
vars == <<name, moved, envs, th, pos>>
Size(f) == IF f = 1 THEN 2 ELSE IF f = 2 THEN 4 ELSE 3   \* 3: the shared file
Files == {1, 2}
Shared == 3
None == 0
Err == <<<<9, 9>>>>
Bytes(f, off, n) == IF off >= Size(f) THEN <<>>
                    ELSE [i \in 1..(IF off + n > Size(f) THEN Size(f) - off ELSE n) |-> <<f, off + i>>]
\* a mapping of len bytes of a file of another size: zeros after the end
Mapped(f, off, n) == [i \in 1..n |-> IF off + i <= Size(f) THEN <<f, off + i>> ELSE <<0, 0>>]
Idle(left) == [pc |-> "start", env |-> 0, f |-> None, len |-> 0, off |-> 0, n |-> 0, got |-> <<>>, left |-> left]
Init == /\ name = 1 /\ moved = 0 /\ envs = 0 /\ pos = 0
        /\ th = [t \in Threads |-> Idle(Reads)]
Set(t, r) == th' = [th EXCEPT ![t] = r @@ @]
\* first use
Look(t) == /\ th[t].pc = "start" /\ UNCHANGED <<name, moved, pos>>
           /\ IF envs > 0 THEN Set(t, [pc |-> "idle", env |-> envs]) /\ UNCHANGED envs
              ELSE IF First = "once" THEN envs' = 1 /\ Set(t, [pc |-> "idle", env |-> 1])
              ELSE Set(t, [pc |-> "make"]) /\ UNCHANGED envs
Make(t) == /\ th[t].pc = "make" /\ UNCHANGED <<name, moved, pos>>
           /\ envs' = envs + 1 /\ Set(t, [pc |-> "idle", env |-> envs + 1])
\* another thread (or program) changes what the name stands for
Rename(f) == /\ moved < Renames /\ name # f /\ name' = f /\ moved' = moved + 1 /\ UNCHANGED <<envs, th, pos>>
\* opening
Open(t) == /\ th[t].pc = "idle" /\ th[t].f = None /\ name # None /\ UNCHANGED <<name, moved, envs, pos>>
           /\ Set(t, [pc |-> "opened", f |-> name])
SizeOf(t) == /\ th[t].pc = "opened" /\ UNCHANGED <<name, moved, envs, pos>>
             /\ LET x == IF StatBy = "fd" THEN th[t].f ELSE name IN
                IF x = None THEN Set(t, [pc |-> "failed"])
                ELSE Set(t, [pc |-> "idle", len |-> Size(x)])
\* reading the thread's own file
Read(t) == /\ th[t].pc = "idle" /\ th[t].f \in Files /\ th[t].left > 0 /\ UNCHANGED <<name, moved, envs, pos>>
           /\ \E off \in 0..3, n \in 1..3 :
                Set(t, [left |-> th[t].left - 1, off |-> off, n |-> n, pc |-> "read",
                        got |-> IF Reopen THEN (IF name = None THEN Err ELSE Bytes(name, off, n))
                                ELSE IF off + n > th[t].len THEN Err ELSE Mapped(th[t].f, off, n)])
\* reading the shared file
SharedRead(t) == /\ th[t].pc = "idle" /\ th[t].left > 0 /\ UNCHANGED <<name, moved, envs>>
                 /\ \E off \in 0..3, n \in 1..2 :
                      IF Pos = "pread" THEN /\ Set(t, [left |-> th[t].left - 1, off |-> off, n |-> n, pc |-> "sread", got |-> Bytes(Shared, off, n)])
                                            /\ UNCHANGED pos
                      ELSE pos' = off /\ Set(t, [left |-> th[t].left - 1, off |-> off, n |-> n, pc |-> "seeked"])
SharedMove(t) == /\ th[t].pc = "seeked" /\ UNCHANGED <<name, moved, envs>>
                 /\ LET g == Bytes(Shared, pos, th[t].n) IN
                      pos' = pos + Len(g) /\ Set(t, [pc |-> "sread", got |-> g])
Done(t) == th[t].pc \in {"read", "sread"} /\ Set(t, [pc |-> "idle", got |-> <<>>]) /\ UNCHANGED <<name, moved, envs, pos>>
Next == (\E t \in Threads : Look(t) \/ Make(t) \/ Open(t) \/ SizeOf(t) \/ Read(t) \/ SharedRead(t) \/ SharedMove(t) \/ Done(t))
        \/ (\E f \in {0} \cup Files : Rename(f))
Spec == Init /\ [][Next]_vars
OwnFile == \A t \in Threads : th[t].pc = "read" =>
             \/ th[t].got = Bytes(th[t].f, th[t].off, th[t].n)
             \/ th[t].got = Err /\ th[t].off + th[t].n > Size(th[t].f)
SharedRight == \A t \in Threads : th[t].pc = "sread" => th[t].got = Bytes(Shared, th[t].off, th[t].n)
NoFailure == \A t \in Threads : th[t].pc # "failed"
OneEnv == envs <= 1 /\ \A t \in Threads : th[t].env \in {0, envs}
=============================================================================
