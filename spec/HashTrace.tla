------------------------------ MODULE HashTrace ------------------------------
(* Decides recorded calls of Hash (C24): bytes, seed and result as 4 bytes,   *)
(* least significant first; hs: the distinct results over all alignments and  *)
(* following bytes tried.                                                     *)
EXTENDS Hash, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
MulReal == <<147, 167, 164, 198>>     \* 0xc6a4a793
VARIABLES l
Pattern(n, a, b) == [i \in 1..n |-> (a * (i % 256) + b) % 256]     \* long inputs
Step(e) == e.e = "Reset" \/ (e.e = "HashLong" /\ e.h = HashOf(Pattern(e.len, e.a, e.b), e.seed)) \/ (e.e = "Hash" /\ e.hs = <<HashOf(e.d, e.seed)>>)
TraceInit == l = 1
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
