--------------------------- MODULE BackgroundTrace ---------------------------
(***************************************************************************)
(* Decides recorded executions of the real environment's background work:  *)
(* every scheduled item starts exactly once, with its argument, not before *)
(* it was scheduled, after all items whose scheduling had returned when    *)
(* its own began; started threads run once, each in a thread of its own;   *)
(* no item runs in a client's thread; at rest nothing is left.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l,
          item,    \* id -> [arg, before, st]  st: "sched", "run", "end"
          back,    \* ids whose scheduling call has returned
          thr,     \* id of a started thread -> [arg, st]
          n,       \* threads 0..n are clients
          own      \* threads running items, and those running started functions
tvars == <<l, item, back, thr, n, own>>
None == [x \in {} |-> 0]
Put(f, x, v) == (x :> v) @@ f
Step(e) ==
  CASE e.e = "Reset" -> item' = None /\ back' = {} /\ thr' = None /\ n' = e.n /\ own' = [i |-> {}, t |-> {}]
    [] e.e = "Sched" -> /\ e.id \notin DOMAIN item
                        /\ item' = Put(item, e.id, [arg |-> e.arg, before |-> back, st |-> "sched"]) /\ UNCHANGED <<back, thr, n, own>>
    [] e.e = "SchedE" -> /\ e.id \in DOMAIN item /\ back' = back \cup {e.id} /\ UNCHANGED <<item, thr, n, own>>
    [] e.e = "Start" ->
         /\ e.id \in DOMAIN item /\ item[e.id].st = "sched" /\ e.arg = item[e.id].arg /\ e.cap = e.id
         /\ \A p \in item[e.id].before : item[p].st # "sched"
         /\ e.t > n /\ e.t \notin own.t /\ own' = [own EXCEPT !.i = @ \cup {e.t}]
         /\ item' = [item EXCEPT ![e.id].st = "run"] /\ UNCHANGED <<back, thr, n>>
    [] e.e = "End" -> /\ e.id \in DOMAIN item /\ item[e.id].st = "run" /\ item' = [item EXCEPT ![e.id].st = "end"] /\ UNCHANGED <<back, thr, n, own>>
    [] e.e = "Thr" -> /\ e.id \notin DOMAIN thr /\ thr' = Put(thr, e.id, [arg |-> e.arg, st |-> "sched"]) /\ UNCHANGED <<item, back, n, own>>
    [] e.e = "ThrS" -> /\ e.id \in DOMAIN thr /\ thr[e.id].st = "sched" /\ e.arg = thr[e.id].arg /\ e.cap = e.id
                       /\ e.t > n /\ e.t \notin own.i \cup own.t /\ own' = [own EXCEPT !.t = @ \cup {e.t}]
                       /\ thr' = [thr EXCEPT ![e.id].st = "end"] /\ UNCHANGED <<item, back, n>>
    [] e.e = "Rest" -> /\ \A i \in DOMAIN item : item[i].st = "end"
                       /\ \A i \in DOMAIN thr : thr[i].st = "end"
                       /\ UNCHANGED <<item, back, thr, n, own>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ item = None /\ back = {} /\ thr = None /\ n = 0 /\ own = [i |-> {}, t |-> {}]
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
