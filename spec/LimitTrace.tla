------------------------------ MODULE LimitTrace ------------------------------
(***************************************************************************)
(* Decides recorded executions of threads opening, reading and closing     *)
(* read-only files.  Every mapping and descriptor taken or given back is   *)
(* an event of the system call itself.  In every interleaving: never more  *)
(* mappings than M; the descriptors kept by open files, from the end of    *)
(* the open to their actual closing, never more than F; a failing open     *)
(* and a read keep nothing; a close gives back all.  Alone, an open takes  *)
(* what the limits allow: afterwards the full limits are available.        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, M, F,
          call,     \* thread -> [k, h, m, f, len]: its call; m, f: what it took and has not given back
          file,     \* open file -> [m, f, len]
          m, f      \* mappings there are; descriptors kept by open files
tvars == <<l, M, F, call, file, m, f>>
Idle == [k |-> "-", h |-> 0, m |-> 0, f |-> 0, len |-> 0]
Upd(g, x, v) == [y \in DOMAIN g \cup {x} |-> IF y = x THEN v ELSE g[y]]
Del(g, x) == [y \in DOMAIN g \ {x} |-> g[y]]
Call(e, k, h, n) == call[e.t].k = "-" /\ call' = [call EXCEPT ![e.t] = [k |-> k, h |-> h, m |-> 0, f |-> 0, len |-> n]]
Back(e) == call' = [call EXCEPT ![e.t] = Idle]
Step(e) ==
  CASE e.e = "Reset" -> /\ M' = e.M /\ F' = e.F /\ call' = [t \in 0..e.n |-> Idle] /\ file' = [x \in {} |-> 0] /\ m' = 0 /\ f' = 0
    [] e.e = "O" -> Call(e, "open", 0, IF e.f = 0 THEN -1 ELSE e.len) /\ UNCHANGED <<M, F, file, m, f>>
    [] e.e = "R" -> e.h \in DOMAIN file /\ Call(e, "read", e.h, 0) /\ UNCHANGED <<M, F, file, m, f>>
    [] e.e = "C" -> e.h \in DOMAIN file /\ Call(e, "close", e.h, 0) /\ UNCHANGED <<M, F, file, m, f>>
    [] e.e = "Sys" ->
         LET c == call[e.t] IN
         /\ CASE e.k = "map" -> c.k = "open" /\ m < M /\ m' = m + 1 /\ call' = [call EXCEPT ![e.t].m = @ + 1] /\ UNCHANGED <<file, f>>
              [] e.k = "fd" -> c.k # "-" /\ call' = [call EXCEPT ![e.t].f = @ + 1] /\ UNCHANGED <<file, m, f>>
              [] e.k = "unmap" ->
                   /\ m' = m - 1 /\ UNCHANGED f
                   /\ IF c.m > 0 THEN call' = [call EXCEPT ![e.t].m = @ - 1] /\ UNCHANGED file
                      ELSE c.k = "close" /\ file[c.h].m > 0 /\ file' = [file EXCEPT ![c.h].m = @ - 1] /\ UNCHANGED call
              [] e.k = "close" ->
                   /\ UNCHANGED m
                   /\ IF c.f > 0 THEN call' = [call EXCEPT ![e.t].f = @ - 1] /\ UNCHANGED <<file, f>>
                      ELSE c.k = "close" /\ file[c.h].f > 0 /\ file' = [file EXCEPT ![c.h].f = @ - 1] /\ f' = f - 1 /\ UNCHANGED call
         /\ UNCHANGED <<M, F>>
    [] e.e = "OE" /\ e.ok = 0 ->
         LET c == call[e.t] IN
         /\ e.null = 1 /\ c.m = 0 /\ c.f = 0 /\ (e.fault > 0 \/ c.len = -1) /\ Back(e)
         /\ UNCHANGED <<M, F, file, m, f>>
    [] e.e = "OE" /\ e.ok = 1 ->
         LET c == call[e.t] IN
         /\ e.null = 0 /\ c.len # -1 /\ c.m + c.f <= 1 /\ f + c.f <= F
         \* no one else is there: the first M files are mapped (an empty one cannot be), the next F keep their descriptor
         /\ e.alone = 1 => /\ c.m = IF c.len > 0 /\ m - c.m < M THEN 1 ELSE 0
                           /\ c.f = IF c.m = 0 /\ f < F THEN 1 ELSE 0
         /\ file' = Upd(file, e.h, [m |-> c.m, f |-> c.f, len |-> c.len]) /\ f' = f + c.f /\ Back(e)
         /\ UNCHANGED <<M, F, m>>
    [] e.e = "RE" ->
         LET c == call[e.t] IN
         /\ c.m = 0 /\ c.f = 0 /\ (e.ok = 0 => e.fault > 0) /\ (e.ok = 1 => e.same = 1) /\ Back(e)
         /\ UNCHANGED <<M, F, file, m, f>>
    [] e.e = "CE" ->
         LET c == call[e.t] IN
         /\ c.m = 0 /\ c.f = 0 /\ file[c.h].m = 0 /\ file[c.h].f = 0 /\ file' = Del(file, c.h) /\ Back(e)
         /\ UNCHANGED <<M, F, m, f>>
    [] e.e = "Rest" -> m = 0 /\ f = 0 /\ file = [x \in {} |-> 0] /\ UNCHANGED <<M, F, call, file, m, f>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ M = 0 /\ F = 0 /\ call = [t \in {} |-> Idle] /\ file = [x \in {} |-> 0] /\ m = 0 /\ f = 0
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
