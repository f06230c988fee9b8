----------------------------- MODULE UsageTrace -----------------------------
(***************************************************************************)
(* Decides recorded executions of one thread allocating from an arena and  *)
(* others asking how much memory it uses (C32).  The usage only grows, and *)
(* covers at least what has been handed out; an answer lies between what   *)
(* the asking thread knows already (its own earlier answers, external      *)
(* synchronization with the allocating thread; everything completed, if    *)
(* memory is sequentially consistent) and the usage after the allocation   *)
(* that is going on.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, sc,
          use,     \* usage after the last completed allocation
          top,     \* usage after the allocation going on
          out,     \* bytes handed out
          busy,    \* the allocating thread is in an allocation
          pub, lo, \* usage published last; reader -> usage it knows
          from     \* reader -> floor of its call (-1: not asking)
tvars == <<l, sc, use, top, out, busy, pub, lo, from>>
Rd == 1..4
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE EndFrom(_)
EndFrom(i) == IF i > Len(Log) \/ Log[i].e = "Reset" THEN 0 ELSE IF Log[i].e = "AllocE" THEN i ELSE EndFrom(i + 1)
Floor(t) == IF sc THEN use ELSE lo[t]
Step(e) ==
  CASE e.e = "Reset" -> /\ sc' = e.sc /\ e.u = 0 /\ use' = 0 /\ top' = 0 /\ out' = 0 /\ busy' = FALSE /\ pub' = 0
                        /\ lo' = [t \in Rd |-> 0] /\ from' = [t \in Rd |-> -1]
    \* creating a skip list has allocated its head
    [] e.e = "Start" -> /\ e.u >= use /\ use' = e.u /\ top' = e.u /\ UNCHANGED <<sc, out, busy, pub, lo, from>>
    [] e.e = "Ready" -> /\ ~busy /\ pub' = use /\ lo' = [t \in Rd |-> use] /\ UNCHANGED <<sc, use, top, out, busy, from>>
    [] e.e = "AllocB" ->
         LET j == EndFrom(l) IN
         /\ ~busy /\ busy' = TRUE /\ j # 0
         /\ top' = Log[j].u /\ out' = out + e.n /\ UNCHANGED <<sc, use, pub, lo, from>>
    [] e.e = "AllocE" -> /\ busy /\ busy' = FALSE /\ e.u = top /\ e.u >= use /\ e.u >= out /\ use' = e.u /\ UNCHANGED <<sc, top, out, pub, lo, from>>
    [] e.e = "Pub" -> pub' = use /\ UNCHANGED <<sc, use, top, out, busy, lo, from>>
    [] e.e = "Obs" -> lo' = [lo EXCEPT ![e.t] = Max(@, pub)] /\ UNCHANGED <<sc, use, top, out, busy, pub, from>>
    [] e.e = "Joined" -> ~busy /\ lo' = [t \in Rd |-> use] /\ UNCHANGED <<sc, use, top, out, busy, pub, from>>
    [] e.e = "Call" -> from[e.t] = -1 /\ from' = [from EXCEPT ![e.t] = Max(lo[e.t], Floor(e.t))] /\ UNCHANGED <<sc, use, top, out, busy, pub, lo>>
    [] e.e = "Ret" -> /\ from[e.t] # -1 /\ e.u >= from[e.t] /\ e.u <= top
                      /\ lo' = [lo EXCEPT ![e.t] = Max(@, e.u)] /\ from' = [from EXCEPT ![e.t] = -1] /\ UNCHANGED <<sc, use, top, out, busy, pub>>
    [] OTHER -> FALSE
TraceInit == /\ l = 1 /\ sc = TRUE /\ use = 0 /\ top = 0 /\ out = 0 /\ busy = FALSE /\ pub = 0
             /\ lo = [t \in Rd |-> 0] /\ from = [t \in Rd |-> -1]
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
