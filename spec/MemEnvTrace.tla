----------------------------- MODULE MemEnvTrace -----------------------------
(* Decides recorded sequential runs of the real in-memory environment.        *)
EXTENDS MemEnv, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, st
tvars == <<l, st>>
Step(e) ==
  \/ e.e = "Reset" /\ st' = EmptyEnv
  \/ e.e = "Op" /\ e.o \in Ops /\ LET r == Effect(st, e) IN r.ok /\ st' = r.st
  \* the environment is destroyed: all names go, open handles stay usable
  \/ e.e = "EnvGone" /\ st' = Gc([st EXCEPT !.names = [x \in {} |-> 0]])
  \* nothing is left allocated once the last handle is gone
  \/ e.e = "End" /\ DOMAIN st.han = {} /\ DOMAIN st.names = {} /\ e.leaked = 0 /\ st' = EmptyEnv
TraceInit == l = 1 /\ st = EmptyEnv
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
