----------------------------- MODULE MemConcMC -----------------------------
(***************************************************************************)
(* Threads in the in-memory environment, at the grain of its locks: the    *)
(* name table's, each file's reference count and each file's contents.     *)
(* Appends write two units; skipping reads the size and moves.  Each lock  *)
(* can be left out (EnvLock, RefLock, DataLock) and Skip can read the size *)
(* twice (SizeReads = 2); every such variant breaks an invariant.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, MaxFiles, MaxOps, EnvLock, RefLock, DataLock, SizeReads
VARIABLES name,    \* file the only name stands for, or 0
          nf,      \* files made
          refs, freed, data,  \* per file: reference count, freed, units
          el, rl, dl,         \* holders of the locks
          th,      \* thread -> [pc, op, f, h, pos, tmp, ops, most, why]
          bad      \* something touched a freed file
vars == <<name, nf, refs, freed, data, el, rl, dl, th, bad>>
Files == 1..MaxFiles
Idle == [pc |-> "idle", op |-> "none", f |-> 0, h |-> 0, pos |-> 0, tmp |-> 0, ops |-> 0, most |-> 0, after |-> "idle"]
Init == /\ name = 0 /\ nf = 0 /\ bad = FALSE
        /\ refs = [f \in Files |-> 0] /\ freed = [f \in Files |-> FALSE] /\ data = [f \in Files |-> <<>>]
        /\ el = 0 /\ rl = [f \in Files |-> 0] /\ dl = [f \in Files |-> 0]
        /\ th = [t \in Threads |-> Idle]
Max(a, b) == IF a > b THEN a ELSE b
Touch(f) == bad' = (bad \/ freed[f])
Set(t, r) == th' = [th EXCEPT ![t] = r]
Go(t, pc) == [th[t] EXCEPT !.pc = pc]
\* operations; those on names take the environment's lock first
Start(t) ==
  /\ th[t].pc = "idle" /\ th[t].ops < MaxOps
  /\ \E o \in {"open", "create", "remove", "append", "skip", "close"} :
       /\ o \in {"append", "skip", "close"} => th[t].h # 0
       /\ o \in {"open", "create"} => th[t].h = 0
       /\ Set(t, [th[t] EXCEPT !.op = o, !.ops = @ + 1, !.f = IF o \in {"append", "skip", "close"} THEN th[t].h ELSE 0,
                               !.pc = IF o \in {"open", "create", "remove"} THEN "env"
                                      ELSE IF o = "close" THEN "unref" ELSE "dlock",
                               !.after = "idle", !.most = 0])
  /\ UNCHANGED <<name, nf, refs, freed, data, el, rl, dl, bad>>
Env(t) ==
  /\ th[t].pc = "env" /\ (EnvLock => el = 0)
  /\ el' = (IF EnvLock THEN t ELSE el) /\ Set(t, Go(t, "find"))
  /\ UNCHANGED <<name, nf, refs, freed, data, rl, dl, bad>>
Find(t) ==
  /\ th[t].pc = "find"
  /\ LET o == th[t].op IN
     IF name # 0
     THEN Set(t, [th[t] EXCEPT !.f = name, !.pc = IF o = "remove" THEN "unname" ELSE IF o = "create" THEN "dlock" ELSE "ref",
                               !.after = IF o = "create" THEN "ref" ELSE "out"])
     ELSE Set(t, Go(t, IF o = "create" /\ nf < MaxFiles THEN "new" ELSE "out"))
  /\ UNCHANGED <<name, nf, refs, freed, data, el, rl, dl, bad>>
New(t) ==      \* a new file with the name table's reference
  /\ th[t].pc = "new" /\ nf' = nf + 1 /\ name' = nf + 1 /\ refs' = [refs EXCEPT ![nf + 1] = 1]
  /\ Set(t, [th[t] EXCEPT !.f = nf + 1, !.pc = "ref", !.after = "out"])
  /\ UNCHANGED <<freed, data, el, rl, dl, bad>>
Unname(t) ==
  /\ th[t].pc = "unname" /\ name' = 0 /\ Set(t, [th[t] EXCEPT !.pc = "unref", !.after = "out"])
  /\ UNCHANGED <<nf, refs, freed, data, el, rl, dl, bad>>
Out(t) ==
  /\ th[t].pc = "out" /\ el' = (IF el = t THEN 0 ELSE el)
  /\ Set(t, [th[t] EXCEPT !.pc = "idle", !.h = IF th[t].op \in {"open", "create"} THEN th[t].f ELSE @, !.f = 0])
  /\ UNCHANGED <<name, nf, refs, freed, data, rl, dl, bad>>
\* reference counting: lock, read, write, unlock
RefBegin(t) ==
  LET f == th[t].f IN
  /\ th[t].pc \in {"ref", "unref"} /\ (RefLock => rl[f] = 0)
  /\ rl' = (IF RefLock THEN [rl EXCEPT ![f] = t] ELSE rl)
  /\ Set(t, [th[t] EXCEPT !.pc = IF @ = "ref" THEN "ref2" ELSE "unref2", !.tmp = refs[f]]) /\ Touch(f)
  /\ UNCHANGED <<name, nf, refs, freed, data, el, dl>>
RefEnd(t) ==
  LET f == th[t].f  v == IF th[t].pc = "ref2" THEN th[t].tmp + 1 ELSE th[t].tmp - 1 IN
  /\ th[t].pc \in {"ref2", "unref2"} /\ Touch(f)
  /\ refs' = [refs EXCEPT ![f] = v] /\ rl' = (IF rl[f] = t THEN [rl EXCEPT ![f] = 0] ELSE rl)
  /\ freed' = [freed EXCEPT ![f] = @ \/ (th[t].pc = "unref2" /\ v = 0)]
  /\ Set(t, [th[t] EXCEPT !.pc = IF @ = "ref2" THEN "out" ELSE th[t].after, !.tmp = 0,
                          !.h = IF th[t].op = "close" THEN 0 ELSE @, !.pos = IF th[t].op = "close" THEN 0 ELSE @,
                          !.f = IF th[t].op = "close" THEN 0 ELSE @])
  /\ UNCHANGED <<name, nf, data, el, dl>>
\* contents
DLock(t) ==
  LET f == th[t].f IN
  /\ th[t].pc = "dlock" /\ (DataLock => dl[f] = 0) /\ Touch(f)
  /\ dl' = (IF DataLock THEN [dl EXCEPT ![f] = t] ELSE dl)
  /\ Set(t, Go(t, CASE th[t].op = "create" -> "trunc" [] th[t].op = "append" -> "write1" [] th[t].op = "skip" -> "size1"))
  /\ UNCHANGED <<name, nf, refs, freed, data, el, rl>>
DUnlock(f, t) == dl' = (IF dl[f] = t THEN [dl EXCEPT ![f] = 0] ELSE dl)
Trunc(t) ==
  LET f == th[t].f IN
  /\ th[t].pc = "trunc" /\ Touch(f) /\ data' = [data EXCEPT ![f] = <<>>] /\ DUnlock(f, t) /\ Set(t, Go(t, "ref"))
  /\ UNCHANGED <<name, nf, refs, freed, el, rl>>
Write(t) ==
  LET f == th[t].f  last == th[t].pc = "write2" IN
  /\ th[t].pc \in {"write1", "write2"} /\ Touch(f)
  /\ data' = [data EXCEPT ![f] = Append(@, <<t, th[t].ops, IF last THEN 2 ELSE 1>>)]
  /\ (IF last THEN DUnlock(f, t) ELSE UNCHANGED dl) /\ Set(t, Go(t, IF last THEN "idle" ELSE "write2"))
  /\ UNCHANGED <<name, nf, refs, freed, el, rl>>
SizeOf(f) == Len(data[f])
Size1(t) ==    \* read the size once, under the lock
  LET f == th[t].f IN
  /\ th[t].pc = "size1" /\ Touch(f) /\ DUnlock(f, t)
  /\ Set(t, [th[t] EXCEPT !.tmp = SizeOf(f), !.most = Max(@, SizeOf(f)),
                          !.pc = IF th[t].pos > SizeOf(f) THEN "idle" ELSE IF SizeReads = 2 THEN "size2" ELSE "move"])
  /\ UNCHANGED <<name, nf, refs, freed, data, el, rl>>
Size2(t) ==
  LET f == th[t].f IN
  /\ th[t].pc = "size2" /\ Touch(f) /\ (DataLock => dl[f] = 0)
  /\ Set(t, [th[t] EXCEPT !.tmp = SizeOf(f), !.most = Max(@, SizeOf(f)), !.pc = "move"])
  /\ UNCHANGED <<name, nf, refs, freed, data, el, rl, dl>>
Move(t) ==     \* skip 2; a negative number of available units counts as huge
  LET avail == th[t].tmp - th[t].pos  n == IF avail < 0 \/ avail > 2 THEN 2 ELSE avail IN
  /\ th[t].pc = "move"
  /\ bad' = (bad \/ th[t].pos + n > Max(th[t].tmp, th[t].pos))      \* left the range it saw
  /\ Set(t, [th[t] EXCEPT !.pos = @ + n, !.tmp = 0, !.pc = "idle"])
  /\ UNCHANGED <<name, nf, refs, freed, data, el, rl, dl>>
Next == \E t \in Threads : Start(t) \/ Env(t) \/ Find(t) \/ New(t) \/ Unname(t) \/ Out(t) \/ RefBegin(t) \/ RefEnd(t)
                           \/ DLock(t) \/ Trunc(t) \/ Write(t) \/ Size1(t) \/ Size2(t) \/ Move(t)
Spec == Init /\ [][Next]_vars
Safe == ~bad
Quiet == \A t \in Threads : th[t].pc = "idle"
Holders(f) == Cardinality({t \in Threads : th[t].h = f}) + (IF name = f THEN 1 ELSE 0)
\* freed exactly when nobody uses it any more
Counted == Quiet => \A f \in 1..nf : refs[f] = Holders(f) /\ (freed[f] <=> Holders(f) = 0)
\* an append is seen completely or not at all by whoever has the lock
Whole == \A f \in Files : dl[f] = 0 /\ DataLock => Len(data[f]) % 2 = 0
Contiguous == Quiet => \A f \in Files : \A i \in 1..Len(data[f]) :
                  IF i % 2 = 1 THEN data[f][i][3] = 1 ELSE data[f][i] = <<data[f][i - 1][1], data[f][i - 1][2], 2>>
Progress == Quiet \/ \E t \in Threads : th[t].pc # "idle" /\ ENABLED (Env(t) \/ Find(t) \/ New(t) \/ Unname(t) \/ Out(t) \/ RefBegin(t)
   \/ RefEnd(t) \/ DLock(t) \/ Trunc(t) \/ Write(t) \/ Size1(t) \/ Size2(t) \/ Move(t))
=============================================================================
