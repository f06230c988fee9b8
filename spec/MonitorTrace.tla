---------------------------- MODULE MonitorTrace ----------------------------
(***************************************************************************)
(* Decides recorded executions of programs over the real mutex, scoped     *)
(* lock and condition variable: there must be a behaviour of Monitor in    *)
(* which every call takes effect between its beginning and its end, and in *)
(* which, whenever nothing can run any more, every thread that is still    *)
(* waiting was never woken, or finds its mutex held, and every thread that still wants *)
(* a mutex finds it held.                                                  *)
(***************************************************************************)
EXTENDS Monitor, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l,
          want,    \* thread -> mutex it is asking for, 0: none
          sig      \* thread -> <<condition, all?>> of a signal not yet effective, <<0, FALSE>>: none
tvars == <<owner, of, cond, ws, l, want, sig>>
Same == UNCHANGED monvars
Idle == <<0, FALSE>>
T == DOMAIN ws
\* everything at rest is as it may be
Resting ==
  /\ \A t \in T : ws[t] # "enter" /\ sig[t] = Idle
  /\ \A t \in T : ws[t] = "woken" => ~Free(of[cond[t]])
  /\ \A t \in T : want[t] # 0 => ~Free(want[t])
Step(e) ==
  CASE e.e = "Reset" -> /\ owner' = [i \in 1..e.m |-> 0] /\ of' = e.of
                        /\ cond' = [t \in 0..e.n |-> 0] /\ ws' = [t \in 0..e.n |-> "run"]
                        /\ want' = [t \in 0..e.n |-> 0] /\ sig' = [t \in 0..e.n |-> Idle]
    [] e.e = "Req" -> want' = [want EXCEPT ![e.t] = e.m] /\ Same /\ UNCHANGED sig
    [] e.e = "Got" -> /\ want[e.t] = e.m /\ want' = [want EXCEPT ![e.t] = 0] /\ Acquire(e.t, e.m) /\ UNCHANGED sig
    [] e.e = "Rel" -> Release(e.t, e.m) /\ UNCHANGED <<want, sig>>
    [] e.e = "W" -> CallWait(e.t, e.c) /\ UNCHANGED <<want, sig>>
    [] e.e = "WE" -> Return(e.t) /\ cond[e.t] = e.c /\ UNCHANGED <<want, sig>>
    [] e.e = "S" -> sig' = [sig EXCEPT ![e.t] = <<e.c, e.all = 1>>] /\ Same /\ UNCHANGED want
    [] e.e = "SE" -> sig[e.t] = Idle /\ Same /\ UNCHANGED <<want, sig>>
    [] e.e = "Rest" -> Resting /\ Same /\ UNCHANGED <<want, sig>>
    \* programs that recheck their conditions in loops have ended by now
    [] e.e = "Ended" -> (e.loops = 1 => e.left = 0) /\ Resting /\ Same /\ UNCHANGED <<want, sig>>
    [] OTHER -> FALSE
Fire(t) ==
  /\ sig[t] # Idle /\ sig' = [sig EXCEPT ![t] = Idle] /\ UNCHANGED <<want, l>>
  /\ (IF sig[t][2] THEN SignalAll(sig[t][1]) ELSE Signal(sig[t][1]))
\* internal steps, only where they can matter: before an event of the log
Inner ==
  /\ l <= Len(Log)
  /\ \E t \in T : Fire(t) \/ (Enter(t) /\ UNCHANGED <<l, want, sig>>)
                  \/ (Log[l].e = "WE" /\ Log[l].t = t /\ Spurious(t) /\ UNCHANGED <<l, want, sig>>)
TraceInit == /\ l = 1 /\ owner = <<>> /\ of = <<>> /\ cond = [t \in {} |-> 0] /\ ws = [t \in {} |-> "run"]
             /\ want = cond /\ sig = [t \in {} |-> Idle]
TraceNext == \/ (l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1)
             \/ Inner
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
