------------------------------ MODULE BufFileMC ------------------------------
(***************************************************************************)
(* A buffered file on top of the system (util/env_posix.cc,                *)
(* PosixWritableFile): bytes are named by their position in the appended   *)
(* stream; every system call may be short, interrupted or fail; the        *)
(* machine may crash after any step.  Cap: buffer capacity in units.       *)
(* DirFirst, Resend, KeepBuf select (wrong) variants of the design.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cap, Lens, MaxApp, MaxFaults, MaxOps, Manifest,
          DirFirst,   \* TRUE: the directory is made durable before the data
          Resend,     \* FALSE: a short write continues where it stopped
          FullLast    \* TRUE: a remainder that fills the buffer is written directly
VARIABLES file,       \* bytes handed to the system, in file order
          dur,        \* prefix of file that survives a crash
          dirdur,     \* the directory entry is durable
          buf, app, pc, todo, wq, cont, res, bad, acked, man, closed, fault, ops, last
vars == <<file, dur, dirdur, buf, app, pc, todo, wq, cont, res, bad, acked, man, closed, fault, ops, last>>
View == <<file, dur, dirdur, buf, app, pc, todo, wq, cont, res, bad, acked, man, closed, fault, ops>>
Range(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Init == /\ file = <<>> /\ dur = 0 /\ dirdur = FALSE /\ buf = <<>> /\ app = 0
        /\ pc = "idle" /\ todo = <<>> /\ wq = <<>> /\ cont = "" /\ res = "ok" /\ bad = FALSE /\ acked = 0
        /\ man \in Manifest /\ closed = FALSE /\ fault = 0 /\ ops = 0 /\ last = ToJson(IF man THEN "man" ELSE "plain")
Lab(t) == last' = ToJson(t)
KeepK == UNCHANGED <<man>>
Begin(t) == pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1 /\ Lab(t) /\ res' = "ok" /\ KeepK
Min2(a, b) == IF a < b THEN a ELSE b

\* ------------------------------------------------------------- operations
Append_(n) ==
  /\ ~closed /\ app + n <= MaxApp /\ Begin("a" \o ToString(n))
  /\ app' = app + n
  /\ LET k == Min2(n, Cap - Len(buf))
         rest == n - k
         b == buf \o Range(app + 1, app + k)
     IN IF rest = 0
        THEN buf' = b /\ pc' = "idle" /\ UNCHANGED <<todo, wq, cont>>
        ELSE buf' = <<>> /\ wq' = b /\ todo' = Range(app + k + 1, app + n) /\ cont' = "rest" /\ pc' = "write"
  /\ UNCHANGED <<file, dur, dirdur, bad, acked, closed, fault>>
Flush_ == /\ ~closed /\ Begin("flush") /\ wq' = buf /\ buf' = <<>> /\ cont' = "ret" /\ pc' = "write"
          /\ UNCHANGED <<file, dur, dirdur, app, todo, bad, acked, closed, fault>>
Sync_ == /\ ~closed /\ Begin("sync")
         /\ IF man /\ DirFirst THEN pc' = "dirsync" /\ cont' = "syncflush" /\ UNCHANGED <<wq, buf>>
            ELSE wq' = buf /\ buf' = <<>> /\ cont' = "fsync" /\ pc' = "write"
         /\ UNCHANGED <<file, dur, dirdur, app, todo, bad, acked, closed, fault>>
Close_ == /\ ~closed /\ Begin("close") /\ wq' = buf /\ buf' = <<>> /\ cont' = "close" /\ pc' = "write"
          /\ UNCHANGED <<file, dur, dirdur, app, todo, bad, acked, closed, fault>>

\* ----------------------------------------------------------- system calls
Fail(t) == fault < MaxFaults /\ fault' = fault + 1 /\ Lab(t)
Write(k) ==
  /\ pc = "write" /\ k <= Len(wq) /\ k > 0
  /\ IF k = Len(wq) THEN Lab("wf") /\ UNCHANGED fault ELSE fault < MaxFaults /\ fault' = fault + 1 /\ Lab("ws" \o ToString(k))
  /\ file' = file \o SubSeq(wq, 1, k)
  /\ wq' = IF Resend /\ k < Len(wq) THEN SubSeq(wq, 1, Len(wq) - k) ELSE SubSeq(wq, k + 1, Len(wq))
  /\ UNCHANGED <<dur, dirdur, buf, app, pc, todo, cont, res, bad, acked, man, closed, ops>>
Interrupted ==
  /\ pc = "write" /\ wq # <<>> /\ Fail("wi")
  /\ UNCHANGED <<file, dur, dirdur, buf, app, pc, todo, wq, cont, res, bad, acked, man, closed, ops>>
WriteFails ==
  /\ pc = "write" /\ wq # <<>> /\ Fail("we")
  /\ res' = "err" /\ bad' = TRUE /\ wq' = <<>> /\ todo' = <<>>
  /\ pc' = IF cont = "close" THEN "close" ELSE "ret"
  /\ UNCHANGED <<file, dur, dirdur, buf, app, cont, acked, man, closed, ops>>
Written ==
  /\ pc = "write" /\ wq = <<>> /\ Lab("") /\ KeepK
  /\ CASE cont = "rest" -> IF Len(todo) < Cap \/ (~FullLast /\ Len(todo) = Cap)
                           THEN buf' = todo /\ todo' = <<>> /\ pc' = "ret" /\ UNCHANGED <<wq, cont>>
                           ELSE wq' = todo /\ todo' = <<>> /\ cont' = "ret" /\ UNCHANGED <<buf, pc>>
       [] cont = "ret" -> pc' = "ret" /\ UNCHANGED <<buf, todo, wq, cont>>
       [] cont = "fsync" -> pc' = "fsync" /\ UNCHANGED <<buf, todo, wq, cont>>
       [] cont = "close" -> pc' = "close" /\ UNCHANGED <<buf, todo, wq, cont>>
  /\ UNCHANGED <<file, dur, dirdur, app, res, bad, acked, closed, fault, ops>>
DirSync(okay) ==
  /\ pc = "dirsync" /\ KeepK
  /\ IF okay
     THEN /\ dirdur' = TRUE /\ Lab("yf") /\ UNCHANGED <<fault, res, bad>>
          /\ IF cont = "syncflush" THEN wq' = buf /\ buf' = <<>> /\ cont' = "fsync" /\ pc' = "write"
             ELSE pc' = "ack" /\ UNCHANGED <<wq, buf, cont>>
     ELSE /\ Fail("ye") /\ res' = "err" /\ bad' = TRUE /\ pc' = "ret" /\ UNCHANGED <<dirdur, wq, buf, cont>>
  /\ UNCHANGED <<file, dur, app, todo, acked, closed, ops>>
FSync(okay) ==
  /\ pc = "fsync" /\ KeepK
  /\ IF okay THEN dur' = Len(file) /\ Lab("yf") /\ pc' = (IF man /\ ~DirFirst THEN "dirsync" ELSE "ack") /\ cont' = "" /\ UNCHANGED <<fault, res, bad>>
     ELSE Fail("ye") /\ res' = "err" /\ bad' = TRUE /\ pc' = "ret" /\ UNCHANGED <<dur, cont>>
  /\ UNCHANGED <<file, dirdur, buf, app, todo, wq, acked, closed, ops>>
Ack == /\ pc = "ack" /\ Lab("") /\ acked' = (IF bad THEN acked ELSE app) /\ pc' = "ret"
       /\ UNCHANGED <<file, dur, dirdur, buf, app, todo, wq, cont, res, bad, man, closed, fault, ops>>
SysClose(okay) ==
  /\ pc = "close" /\ closed' = TRUE /\ pc' = "ret" /\ KeepK
  /\ IF okay THEN Lab("yf") /\ UNCHANGED <<fault, res, bad>> ELSE Fail("ye") /\ res' = "err" /\ bad' = TRUE
  /\ UNCHANGED <<file, dur, dirdur, buf, app, todo, wq, cont, acked, ops>>
Return == /\ pc = "ret" /\ pc' = "idle" /\ Lab("") /\ cont' = ""
          /\ UNCHANGED <<file, dur, dirdur, buf, app, todo, wq, res, bad, acked, man, closed, fault, ops>>
\* the system writes back on its own, at any time
WriteBack == /\ dur < Len(file) /\ \E d \in (dur + 1)..Len(file) : dur' = d
             /\ Lab("") /\ UNCHANGED <<file, dirdur, buf, app, pc, todo, wq, cont, res, bad, acked, man, closed, fault, ops>>
Calls == (\E n \in Lens : Append_(n)) \/ Flush_ \/ Sync_ \/ Close_
System == (\E k \in 1..MaxApp : Write(k)) \/ Interrupted \/ WriteFails \/ Written
       \/ (\E o \in BOOLEAN : DirSync(o)) \/ (\E o \in BOOLEAN : FSync(o)) \/ Ack
       \/ (\E o \in BOOLEAN : SysClose(o)) \/ Return
Next == Calls \/ System \/ WriteBack
NextTour == Calls \/ System
Spec == Init /\ [][Next]_vars
SpecTour == Init /\ [][NextTour]_vars

\* C11: until an error, the file is a prefix of the stream, and nothing is missing after flush or close
IsPrefixOfStream == ~bad => file = Range(1, Len(file))
Complete == /\ ~bad /\ pc = "ret" /\ cont \in {"ret", "fsync", "close"} /\ buf = <<>> => Len(file) + Len(todo) = app
            /\ ~bad /\ closed => Len(file) = app
NothingLost == ~bad => Len(file) + Len(wq) + Len(todo) + Len(buf) = app
\* C12: what sync acknowledged survives a crash at any moment
Durable == acked <= dur
ManifestAfterDir == man /\ ~bad /\ acked > 0 => dirdur
DirBeforeData == man /\ ops > 0 /\ pc = "fsync" => dirdur
=============================================================================
