---------------------------- MODULE ServicesTrace ---------------------------
(* Decides recorded uses of the environment's services.  Times are           *)
(* <<millions of seconds, seconds, microseconds>>.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, dirs   \* user -> directory given out
tvars == <<l, dirs>>
Leq(a, b) == \/ a[1] < b[1]
             \/ a[1] = b[1] /\ a[2] < b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] <= b[3]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Slack == 10000000
Step(e) ==
  CASE e.e = "Reset" -> UNCHANGED dirs
    [] e.e = "Now" -> Leq(e.lo, e.r) /\ Leq(e.r, e.hi) /\ UNCHANGED dirs
    [] e.e = "Sleep" -> e.took >= e.us /\ e.took <= e.us + Slack /\ UNCHANGED dirs
    [] e.e = "TestDir" ->
         /\ e.ok /\ e.made
         /\ IF e.env # "" THEN e.r = e.env /\ UNCHANGED dirs
            ELSE /\ e.r # ""
                 /\ \A u \in DOMAIN dirs : (dirs[u] = e.r) = (u = e.uid)
                 /\ dirs' = Put(dirs, e.uid, e.r)
    [] e.e = "Default" -> e.same /\ UNCHANGED dirs
    [] OTHER -> FALSE
TraceInit == l = 1 /\ dirs = [x \in {} |-> ""]
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
