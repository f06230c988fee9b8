------------------------------- MODULE MemLin -------------------------------
(***************************************************************************)
(* Decides recorded concurrent histories of the real in-memory             *)
(* environment: linearizable with respect to MemEnv, one silent step Lin   *)
(* between Call and Ret of each operation, nothing left allocated at the   *)
(* end.                                                                    *)
(***************************************************************************)
EXTENDS MemEnv, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, st, pend
tvars == <<l, st, pend>>
Ids == 0..7
NoPend == [t \in Ids |-> [o |-> "none", done |-> TRUE]]
\* the results of the call at position i: its Ret, the next event of its thread
RECURSIVE RetAt(_, _)
RetAt(i, t) == IF i > Len(Log) \/ Log[i].e \notin {"Call", "Ret"} THEN 0
               ELSE IF Log[i].t = t THEN i ELSE RetAt(i + 1, t)
Results(i) == LET j == RetAt(i + 1, Log[i].t) IN
  IF j = 0 THEN [st |-> "none"] ELSE [x \in DOMAIN Log[j] \ {"e", "t"} |-> Log[j][x]]
Lin(t) ==
  /\ ~pend[t].done /\ UNCHANGED l
  /\ LET r == Effect(st, pend[t]) IN r.ok /\ st' = r.st
  /\ pend' = [pend EXCEPT ![t].done = TRUE]
Step(e) ==
  CASE e.e = "Reset" -> st' = EmptyEnv /\ pend' = NoPend
    [] e.e = "Call" ->
         /\ pend[e.t].o = "none" /\ e.o \in Ops
         /\ pend' = [pend EXCEPT ![e.t] = [done |-> FALSE] @@ Results(l) @@ e] /\ UNCHANGED st
    [] e.e = "Ret" ->
         /\ pend[e.t].o # "none" /\ pend[e.t].done
         /\ pend' = [pend EXCEPT ![e.t] = NoPend[e.t]] /\ UNCHANGED st
    [] e.e = "End" -> pend = NoPend /\ DOMAIN st.han = {} /\ e.leaked = 0 /\ st' = EmptyEnv /\ UNCHANGED pend
    [] OTHER -> FALSE
Due == l <= Len(Log) /\ Log[l].e = "Ret" /\ ~pend[Log[l].t].done
TraceInit == l = 1 /\ st = EmptyEnv /\ pend = NoPend
TraceNext == \/ l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
             \/ Due /\ \E t \in Ids : Lin(t)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
