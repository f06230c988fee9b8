---------------------------- MODULE FileLockTrace ----------------------------
(***************************************************************************)
(* Decides recorded executions of locking and unlocking by threads of      *)
(* several real processes.  A lock is outstanding from the end of the call *)
(* that took it to the beginning of the call that gives it back (or the    *)
(* exit of its process).  Never two for one name; a call fails only if     *)
(* somebody else held the lock or was busy with it meanwhile, or the       *)
(* system failed it, and then gives null; afterwards nothing is left over. *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l,
          call,    \* thread -> [f, p, busy] of its lock call, f = -1: none
          holder,  \* name -> thread with the outstanding lock, -1: none
          letting, \* name -> threads giving it back
          proc     \* thread -> its process
tvars == <<l, call, holder, letting, proc>>
NoCall == [f |-> -1, busy |-> FALSE]
T == DOMAIN call
\* the name's lock is, or may be, with somebody else
Others(t, f) == holder[f] # -1 \/ letting[f] # {} \/ \E u \in T \ {t} : call[u].f = f
Step(e) ==
  CASE e.e = "Reset" -> /\ call' = [t \in 0..e.n |-> NoCall] /\ holder' = [f \in 0..(e.names - 1) |-> -1]
                        /\ letting' = [f \in 0..(e.names - 1) |-> {}] /\ proc' = [t \in 0..e.n |-> 0]
    [] e.e = "L" ->
         /\ call[e.t].f = -1
         /\ call' = [u \in T |-> IF u = e.t THEN [f |-> e.f, busy |-> Others(e.t, e.f)]
                                 ELSE IF call[u].f = e.f THEN [call[u] EXCEPT !.busy = TRUE] ELSE call[u]]
         /\ proc' = [proc EXCEPT ![e.t] = e.p] /\ UNCHANGED <<holder, letting>>
    [] e.e = "LE" ->
         LET f == call[e.t].f IN
         /\ f # -1 /\ call' = [call EXCEPT ![e.t] = NoCall]
         /\ IF e.ok = 1 THEN holder[f] = -1 /\ e.null = 0 /\ holder' = [holder EXCEPT ![f] = e.t]
            ELSE (e.fault = 1 \/ call[e.t].busy) /\ e.null = 1 /\ e.io = 1 /\ UNCHANGED holder
         /\ UNCHANGED <<letting, proc>>
    [] e.e = "U" -> /\ holder[e.f] = e.t /\ holder' = [holder EXCEPT ![e.f] = -1]
                    /\ letting' = [letting EXCEPT ![e.f] = @ \cup {e.t}] /\ UNCHANGED <<call, proc>>
    [] e.e = "UE" -> /\ e.ok = 1 /\ e.t \in letting[e.f] /\ letting' = [letting EXCEPT ![e.f] = @ \ {e.t}] /\ UNCHANGED <<call, holder, proc>>
    [] e.e = "Exit" -> /\ holder' = [f \in DOMAIN holder |-> IF holder[f] = e.t THEN -1 ELSE holder[f]]
                       /\ letting' = [f \in DOMAIN holder |-> letting[f] \ {e.t}] /\ call' = [call EXCEPT ![e.t] = NoCall] /\ UNCHANGED proc
    \* nothing under way: one descriptor per lock held by this process, no more
    [] e.e = "Rest" -> /\ \A t \in T : call[t].f = -1
                       /\ LET h == {f \in DOMAIN holder : holder[f] # -1 /\ proc[holder[f]] = 0} IN
                            /\ e.fds <= Cardinality(h) /\ (h = {} => e.fds = 0)
                       /\ e.blocks <= 0 /\ UNCHANGED <<call, holder, letting, proc>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ call = [t \in {} |-> NoCall] /\ holder = [f \in {} |-> -1] /\ letting = [f \in {} |-> {}] /\ proc = [t \in {} |-> 0]
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
