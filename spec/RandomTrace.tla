----------------------------- MODULE RandomTrace -----------------------------
(* Decides recorded uses of Random (C25).                                     *)
EXTENDS Lehmer, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, x
tvars == <<l, x>>
\* seed given as two halves of 16 bits; 31 bits are used
Seed(e) == LET s == (e.hi % 32768) * 65536 + e.lo IN IF s = 0 \/ s = M THEN 1 ELSE s
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
RECURSIVE Skip(_, _)
Skip(v, k) == IF k = 0 THEN v ELSE Skip(NextOf(v), k - 1)
Step(e) ==
  CASE e.e = "Reset" -> x' = Seed(e)
    [] e.e = "Next" -> x' = NextOf(x) /\ e.r = x'
    [] e.e = "Uniform" -> x' = NextOf(x) /\ e.r = x' % e.n
    [] e.e = "OneIn" -> x' = NextOf(x) /\ e.r = (x' % e.n = 0)
    \* a skewed draw uses some outputs; nx is the output that follows
    [] e.e = "Skewed" -> /\ e.r >= 0 /\ e.r <= P2(e.n) - 1
                         /\ \E k \in 1..4 : x' = Skip(x, k + 1) /\ e.nx = x'
    [] OTHER -> FALSE
TraceInit == l = 1 /\ x = 1
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
