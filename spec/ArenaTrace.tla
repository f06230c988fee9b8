----------------------------- MODULE ArenaTrace -----------------------------
(* Decides recorded runs of the real arena (C07).                            *)
EXTENDS Arena, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, a, cb, live
tvars == <<l, a, cb, live>>      \* cb: base address of the current block modulo 8

DoAlloc(e) ==
  LET al == IF e.al THEN 8 ELSE 1 IN
  /\ e.b # 0                                     \* inside memory the arena obtained
  /\ e.al => (e.base + e.off) % 8 = 0
  /\ IF e.b \in DOMAIN a.blocks
     THEN /\ e.b = a.cur /\ FromCurrent(a, e.n, al, e.off, cb)
          /\ a' = AfterCurrent(a, e.n, e.off) /\ cb' = cb
     ELSE /\ ~Fits(a, e.n, al, cb)
          /\ e.off >= 0 /\ e.off + e.n <= e.size
          /\ \/ OwnOK(a, e.n, e.size) /\ a' = AfterOwn(a, e.b, e.n, e.size, e.off) /\ cb' = cb
             \/ StdOK(a, e.n, e.size) /\ a' = AfterStd(a, e.b, e.n, e.size, e.off) /\ cb' = e.base
  /\ e.usage = a'.usage
Step(e) ==
  \/ e.e = "Reset" /\ ~live /\ a' = EmptyArena /\ cb' = 0 /\ live' = TRUE /\ e.usage = 0
  \/ e.e = "Alloc" /\ live /\ DoAlloc(e) /\ UNCHANGED live
  \/ e.e = "Check" /\ live /\ e.changed = <<>> /\ e.outside = 0 /\ e.usage = a.usage /\ UNCHANGED <<a, cb, live>>
  \/ e.e = "Destroy" /\ live /\ e.left = 0 /\ live' = FALSE /\ UNCHANGED <<a, cb>>
TraceInit == l = 1 /\ a = EmptyArena /\ cb = 0 /\ live = FALSE
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
