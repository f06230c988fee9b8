---------------------------- MODULE InheritTrace ----------------------------
(* Decides recorded descriptor tables: after every system call of the        *)
(* environment and after every operation, each descriptor opened since the   *)
(* start is marked to be closed when a program is started (InheritMC's       *)
(* "marked"); programs actually started report that they were given none;    *)
(* and an operation that opens nothing leaves nothing behind.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, fds    \* descriptor -> marked?
tvars == <<l, fds>>
Table(e) == [x \in {e.fds[i][1] : i \in 1..Len(e.fds)} |->
               \E i \in 1..Len(e.fds) : e.fds[i][1] = x /\ e.fds[i][2] = 1]
Marked(f) == \A x \in DOMAIN f : f[x]
Step(e) ==
  CASE e.e = "Reset" -> fds' = [x \in {} |-> TRUE]
    [] e.e = "Sys" -> fds' = Table(e) /\ Marked(fds')
    [] e.e = "Ret" -> fds' = Table(e) /\ Marked(fds') /\ Cardinality(DOMAIN fds') <= e.held
    [] e.e = "Exec" -> e.ran /\ e.given = <<>> /\ UNCHANGED fds
    [] e.e = "End" -> fds' = Table(e) /\ fds' = [x \in {} |-> TRUE]
    [] OTHER -> FALSE
TraceInit == l = 1 /\ fds = [x \in {} |-> TRUE]
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
