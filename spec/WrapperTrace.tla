---------------------------- MODULE WrapperTrace ----------------------------
(* Decides recorded calls on stacks of real wrappers: what reached which    *)
(* layer and what came back.                                                *)
EXTENDS Wrapper, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, own, kind, call, got
tvars == <<l, own, kind, call, got>>
Ran(s) == {s[i] : i \in 1..Len(s)}
None == [none |-> 0]
To == Server(own, call.op)
Step(e) ==
  CASE e.e = "Reset" ->
         /\ own' = [i \in 1..Len(e.own) |-> Ran(e.own[i])] /\ kind' = e.kind
         /\ call' = None /\ got' = None
    [] e.e = "Target" -> e.ok /\ UNCHANGED <<own, kind, call, got>>
    [] e.e = "Call" -> call = None /\ call' = e /\ got' = None /\ UNCHANGED <<own, kind>>
    [] e.e = "Got" ->
         /\ call # None /\ got = None
         /\ e.lvl = To /\ e.op = call.op /\ e.args = call.args
         /\ got' = e /\ UNCHANGED <<own, kind, call>>
    [] e.e = "Ret" ->
         /\ call # None /\ call' = None /\ got' = None /\ UNCHANGED <<own, kind>>
         /\ CASE To = 0 -> got = None /\ e.notsupported          \* nobody serves it: the default append-open
              [] To > 0 /\ kind[To] = "mem" -> got = None        \* served inside the in-memory environment
              [] OTHER -> got # None /\ e.res = got.res /\ e.outs = got.outs
    [] OTHER -> FALSE
TraceInit == l = 1 /\ own = <<>> /\ kind = <<>> /\ call = None /\ got = None
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
