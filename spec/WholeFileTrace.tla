--------------------------- MODULE WholeFileTrace ---------------------------
(* Decides recorded calls of the whole-file helpers: the calls they make on  *)
(* an environment with scripted failures, and their returns.                 *)
EXTENDS WholeFile, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, s
tvars == <<l, s>>
Idle == [kind |-> "idle"]
Step(e) ==
  CASE e.e = "Reset" -> s' = Idle
    [] e.e = "Call" -> s' = Start(e.o, e.d, e.sync)
    [] e.e = "Env" -> Can(s, e) /\ s' = Next_(s, e)
    [] e.e = "Ret" -> Done(s, e) /\ s' = Idle
    \* with a real environment underneath: what is in the file afterwards, and what is read back
    [] e.e = "Real" -> e.ok /\ e.disk = e.d /\ e.back = e.d /\ UNCHANGED s
    \* when opening fails on a real environment
    [] e.e = "RealFail" -> ~e.ok /\ UNCHANGED s
    [] OTHER -> FALSE
TraceInit == l = 1 /\ s = Idle
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
