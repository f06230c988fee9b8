------------------------------ MODULE SliceTrace ------------------------------
(* Decides recorded uses of Slice (C22).                                       *)
EXTENDS ByteOrder, Rle, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, sl          \* sl: slot -> bytes the slice refers to
tvars == <<l, sl>>
Put(i, v) == sl' = [j \in DOMAIN sl \cup {i} |-> IF j = i THEN v ELSE sl[j]]
Shows(e, v) == /\ e.size = Len(v) /\ e.empty = (Len(v) = 0) /\ e.str = v /\ e.at = v
(* Very long slices: run-length sequences of units (blocks of one repeated   *)
(* byte each), for which the order of the units is the order of the bytes.   *)
RECURSIVE CmpR(_, _)
CmpR(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
   ELSE IF b = <<>> THEN 1
   ELSE IF a[1][1] # b[1][1] THEN (IF a[1][1] < b[1][1] THEN -1 ELSE 1)
   ELSE LET m == Min2(a[1][2], b[1][2]) IN CmpR(Drop(a, m), Drop(b, m))
ShowsR(e, v) == /\ e.size = Size(v) /\ e.empty = (v = <<>>)
                /\ \A i \in 1..Len(e.at) : Slice(v, e.at[i][1], 1) = <<<<e.at[i][2], 1>>>>
Step(e) ==
  CASE e.e = "Reset" -> sl' = [x \in {} |-> 0]
    [] e.e = "New" -> Shows(e, e.d) /\ Put(e.i, e.d)
    [] e.e = "Copy" -> Shows(e, sl[e.j]) /\ Put(e.i, sl[e.j])
    [] e.e = "Clear" -> Shows(e, <<>>) /\ Put(e.i, <<>>)
    [] e.e = "Drop" -> LET v == SubSeq(sl[e.i], e.n + 1, Len(sl[e.i])) IN Shows(e, v) /\ Put(e.i, v)
    [] e.e = "Cmp" -> LET a == sl[e.i]  b == sl[e.j] IN
         /\ e.c = Cmp(a, b) /\ e.eq = (a = b) /\ e.ne = (a # b) /\ e.pre = Prefix(b, a)
         /\ UNCHANGED sl
    [] e.e = "HNew" -> ShowsR(e, e.d) /\ Put(e.i, e.d)
    [] e.e = "HDrop" -> LET v == Drop(sl[e.i], e.n) IN ShowsR(e, v) /\ Put(e.i, v)
    [] e.e = "HCmp" -> LET a == sl[e.i]  b == sl[e.j] IN
         /\ e.c = CmpR(a, b) /\ e.eq = (a = b) /\ e.ne = (a # b) /\ e.pre = IsPrefix(b, a)
         /\ UNCHANGED sl
    [] OTHER -> FALSE
TraceInit == l = 1 /\ sl = [x \in {} |-> 0]
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
