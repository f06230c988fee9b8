------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* Decides recorded log calls: whenever a call returns, the file is its    *)
(* earlier contents followed by whole records of calls begun, each once,   *)
(* the returning call's among them (only the record of a call under way    *)
(* may be there in part, at the end).                                      *)
(***************************************************************************)
EXTENDS LogLine, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l,
          pend,    \* call -> its record, not yet seen in the file
          run,     \* thread -> its call under way, 0: none
          rest,    \* appended to the file and not yet accounted for
          looked,  \* the file contents of event l are in rest
          old      \* contents before the logger was made
tvars == <<l, pend, run, rest, looked, old>>
None == [x \in {} |-> 0]
Put(f, x, v) == (x :> v) @@ f
Step(e) ==
  CASE e.e = "Reset" -> pend' = None /\ run' = None /\ rest' = <<>> /\ old' = e.old
    [] e.e = "Log" -> /\ (e.t \in DOMAIN run => run[e.t] = 0)
                      /\ run' = Put(run, e.t, e.id)
                      /\ pend' = Put(pend, e.id, Record(e.day, e.sec, e.usec, e.tid, e.msg)) /\ UNCHANGED <<rest, old>>
    \* logging to no logger: nothing happens (no file changes, see the next look)
    [] e.e = "Null" -> UNCHANGED <<pend, run, rest, old>>
    [] e.e = "New" -> e.ok = 1 /\ UNCHANGED <<pend, run, rest, old>>
    [] e.e = "End" -> /\ pend = None /\ rest = <<>> /\ e.old = old /\ UNCHANGED <<pend, run, rest, old>>
    [] OTHER -> FALSE
Look == /\ l <= Len(Log) /\ Log[l].e = "LogE" /\ ~looked
        /\ rest' = Cat(rest, Log[l].new) /\ looked' = TRUE /\ UNCHANGED <<l, pend, run, old>>
Found(c) ==
           /\ looked /\ rest # <<>> /\ IsPrefix(pend[c], rest)
           /\ rest' = Drop(rest, Size(pend[c])) /\ pend' = [x \in DOMAIN pend \ {c} |-> pend[x]] /\ UNCHANGED <<l, run, looked, old>>
Returned ==
  /\ looked
  /\ run[Log[l].t] # 0 /\ run[Log[l].t] \notin DOMAIN pend
  /\ run' = [run EXCEPT ![Log[l].t] = 0]
  /\ (rest = <<>> \/ \E c \in DOMAIN pend : (\E u \in DOMAIN run : run[u] = c) /\ Size(rest) < Size(pend[c]) /\ IsPrefix(rest, pend[c]))
  /\ looked' = FALSE /\ l' = l + 1 /\ UNCHANGED <<pend, rest, old>>
TraceInit == l = 1 /\ pend = None /\ run = None /\ rest = <<>> /\ looked = FALSE /\ old = <<>>
TraceNext == \/ (l <= Len(Log) /\ ~looked /\ Step(Log[l]) /\ l' = l + 1 /\ UNCHANGED looked)
             \/ Look \/ (\E c \in DOMAIN pend : Found(c)) \/ Returned
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
