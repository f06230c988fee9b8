---------------------------- MODULE PosixFsTrace ----------------------------
(* Decides recorded namespace operations of the POSIX environment; after     *)
(* each the driver records the whole tree with its own system calls.         *)
EXTENDS PosixFs, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, st, fds
tvars == <<l, st, fds>>
Seen(t) == [p \in {t[i].p : i \in 1..Len(t)} |-> LET i == CHOOSE i \in 1..Len(t) : t[i].p = p IN [k |-> t[i].k, c |-> t[i].c, t |-> t[i].t]]
\* sizes beyond 32 bits, as two digits of 2^20: reported exactly, before and
\* after appending e.more bytes
Plus(z, n) == <<z[1] + (z[2] + n) \div 1048576, (z[2] + n) % 1048576>>
BigOK(e) == e.st = "ok" /\ e.got = e.z /\ e.st2 = "ok" /\ e.got2 = Plus(e.z, e.more)
Step(e) ==
  CASE e.e = "Reset" -> st' = EmptyFs /\ fds' = e.fds
    [] e.e = "TestDir" -> e.ok /\ e.same /\ e.made /\ UNCHANGED <<st, fds>>
    [] e.e = "BigSize" -> BigOK(e) /\ UNCHANGED <<st, fds>>
    [] e.e = "Op" ->
         LET r == Effect(st, e) IN
         /\ r.ok /\ st' = r.st
         /\ e.fds = fds                    \* nothing leaks
         /\ Seen(e.tree) = r.st.tree       \* exactly the specified change
         /\ UNCHANGED fds
    [] OTHER -> FALSE
TraceInit == l = 1 /\ st = EmptyFs /\ fds = 0
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
