---------------------------- MODULE BufFileTrace ----------------------------
(* Decides recorded uses of the POSIX writable file: calls, the system calls *)
(* they make with their (injected) outcomes, and the file's contents.        *)
(* Focus {"data"}: C11, {"sync"}: C12.                                       *)
EXTENDS Rle, FiniteSets, TLC, Json, IOUtils
CONSTANT Focus
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, strm,    \* previous contents followed by the appended bytes
          del,        \* how many of them are in the file
          dur,        \* how many survive a crash
          bad,        \* a failure has been reported
          man, op,
          failed,     \* a system call of the current operation failed
          dirs,       \* the directory was made durable during this operation
          closes, tot,
          early       \* bytes were handed over in this operation before the directory was durable
tvars == <<l, strm, del, dur, bad, man, op, failed, dirs, closes, tot, early>>
Data == "data" \in Focus
Sync == "sync" \in Focus
\* the file holds exactly the first Size(c) bytes of the stream
Holds(c, s) == IsPrefix(c, s) /\ Size(c) >= del
Step(e) ==
  CASE e.e = "Reset" ->
         /\ strm' = e.base /\ tot' = Size(e.base) /\ del' = Size(e.base) /\ dur' = 0 /\ bad' = FALSE /\ man' = e.man
         /\ op' = "open" /\ failed' = FALSE /\ dirs' = FALSE /\ closes' = 0 /\ early' = FALSE
    [] e.e = "Call" ->
         /\ op' = e.o /\ strm' = Cat(strm, e.d) /\ tot' = tot + Size(e.d) /\ failed' = FALSE /\ dirs' = FALSE /\ early' = FALSE
         /\ UNCHANGED <<del, dur, bad, man, closes>>
    [] e.e = "Sys" /\ e.c = "write" /\ e.f = "file" ->
         /\ IF e.ret > 0
            THEN /\ (Data /\ ~bad /\ ~failed) => Holds(e.c2, strm)
                 \* nothing more is handed to the system after a failed step of a sync
                 /\ (Sync /\ op = "sync") => ~failed
                 /\ del' = (IF bad \/ failed THEN del ELSE Size(e.c2))
                 /\ early' = (early \/ (~dirs))
                 /\ UNCHANGED failed
            ELSE /\ \/ failed' = (failed \/ (e.ret < 0 /\ ~e.intr))
                    \/ e.ret = 0 /\ failed' = TRUE       \* nothing written: try again, or give up
                 /\ UNCHANGED <<del, early>>
         /\ UNCHANGED <<strm, tot, dur, bad, man, op, dirs, closes>>
    [] e.e = "Sys" /\ e.c = "sync" /\ e.f = "file" ->
         /\ (Sync /\ op = "sync") => ~failed
         /\ IF e.ret = 0 THEN dur' = del /\ UNCHANGED failed ELSE failed' = TRUE /\ UNCHANGED dur
         /\ UNCHANGED <<strm, tot, del, bad, man, op, dirs, closes, early>>
    [] e.e = "Sys" /\ e.c = "sync" /\ e.f # "file" ->
         /\ (Sync /\ op = "sync") => ~failed
         /\ IF e.ret = 0 THEN dirs' = (dirs \/ e.f = "dir") /\ UNCHANGED failed ELSE failed' = TRUE /\ UNCHANGED dirs
         /\ UNCHANGED <<strm, tot, del, dur, bad, man, op, closes, early>>
    [] e.e = "Sys" /\ e.c = "close" /\ e.f = "file" ->
         /\ Data => closes = 0
         /\ closes' = closes + 1 /\ failed' = (failed \/ e.ret < 0)
         /\ UNCHANGED <<strm, tot, del, dur, bad, man, op, dirs, early>>
    [] e.e = "Sys" /\ e.c = "close" /\ e.f # "file" ->
         /\ Data => e.f # "badfd"
         /\ UNCHANGED <<strm, tot, del, dur, bad, man, op, failed, dirs, closes, early>>
    [] e.e = "Sys" /\ e.c \notin {"write", "sync", "close"} ->
         \* opening the directory, or whatever else the operation needs
         /\ failed' = (failed \/ (e.inj /\ e.ret < 0 /\ op = "sync"))
         /\ UNCHANGED <<strm, tot, del, dur, bad, man, op, dirs, closes, early>>
    [] e.e = "Sys" /\ e.c = "write" /\ e.f # "file" -> FALSE
    [] e.e = "Ret" /\ e.o = "open" ->
         /\ e.ok /\ e.fds = 1 /\ e.c = strm
         /\ UNCHANGED <<strm, tot, del, dur, bad, man, op, failed, dirs, closes, early>>
    [] e.e = "Ret" /\ e.o \in {"append", "flush", "sync", "close"} ->
         \* a failure of the system is reported by the operation, and nothing else is
         /\ IF op = "sync" THEN Sync => e.ok = ~failed ELSE Data => e.ok = ~failed
         /\ (Data /\ op = "sync") => (failed => ~e.ok)
         /\ bad' = (bad \/ failed \/ ~e.ok)
         /\ IF bad' THEN UNCHANGED del
            ELSE /\ Data => Holds(e.c, strm)
                 /\ (Data /\ op \in {"flush", "sync", "close"}) => Size(e.c) = tot
                 /\ del' = Size(e.c)
         /\ Data => e.fds = (IF op = "close" THEN 0 ELSE 1)
         /\ (Sync /\ op = "sync" /\ e.ok /\ ~bad) => (dur = tot /\ (man => dirs))
         /\ (Sync /\ op = "sync" /\ man) => ~early
         /\ UNCHANGED <<strm, tot, dur, man, op, failed, dirs, closes, early>>
    [] e.e = "Ret" /\ e.o \in {"destroy", "end"} ->
         /\ Data => e.fds = 0 /\ closes = 1
         /\ (Data /\ ~bad /\ ~failed) => e.c = strm
         /\ UNCHANGED <<strm, tot, del, dur, bad, man, op, failed, dirs, closes, early>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ strm = <<>> /\ del = 0 /\ dur = 0 /\ bad = FALSE /\ man = FALSE /\ op = "" /\ failed = FALSE
             /\ dirs = FALSE /\ closes = 0 /\ tot = 0 /\ early = FALSE
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
