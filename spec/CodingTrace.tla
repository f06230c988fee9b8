----------------------------- MODULE CodingTrace -----------------------------
(* Decides recorded calls of util/coding (C20).  Bytes are 0..255; a number  *)
(* is recorded as its 4 or 8 bytes, least significant first.                 *)
EXTENDS Coding, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l
B(v) == BitsOf(v, 8, 8 * Len(v))
\* PutX: appended to what was there; EncodeX: the bytes written, nothing else
EncOK(e) == LET want == IF e.f = "fixed" THEN Fixed(B(e.v), 8) ELSE Varint(B(e.v), 7) IN
            e.out = e.pre \o want /\ e.tail = TRUE
LenOK(e) == e.n = Len(Varint(B(e.v), 7))
PutSliceOK(e) == e.out = e.pre \o Varint(BitsOf(e.len, 8, 32), 7) \o e.s
\* decoding a number: e.w its width, e.used bytes consumed, e.rest what is left
DecOK(e) ==
  LET n == VarUsed(e.in, e.w, 7) IN
  IF n = 0 THEN ~e.ok /\ (e.slice => e.rest = e.in)
  ELSE LET bits == VarBits(e.in, n, 7) IN
       IF Fits(bits, e.w)
       THEN e.ok /\ e.used = n /\ B(e.v) = Pad(bits, e.w) /\ (e.slice => e.rest = Suffix(e.in, n))
       ELSE TRUE            \* a value beyond the width: nothing promised
FixDecOK(e) == B(e.v) = BitsOf(e.in, 8, e.w)
SliceDecOK(e) ==
  LET n == VarUsed(e.in, 32, 7) IN
  IF n = 0 THEN ~e.ok /\ e.rest = e.in
  ELSE LET bits == VarBits(e.in, n, 7) IN
       IF ~Fits(bits, 32) THEN TRUE
       ELSE LET top == TopBit(bits, Len(bits))
                len == IF top > 30 THEN 1073741824 ELSE SumBits(bits, 1, top)
            IN IF len > Len(e.in) - n THEN ~e.ok
               ELSE e.ok /\ e.s = SubSeq(e.in, n + 1, n + len) /\ e.rest = Suffix(e.in, n + len)
\* a long slice: what precedes its contents; then taking it out of the encoding
\* (cut: so many bytes are missing at the end; at, sz: where the result lies;
\* after: distance from its end to what is left; rest: size of what is left)
Prefix(len) == Varint(BitsOf(len, 8, 32), 7)
PutLongOK(e) == e.head = Prefix(e.len) /\ e.body
GetLongOK(e) == IF e.cut > 0 THEN ~e.ok
  ELSE e.ok /\ e.at = Len(Prefix(e.len)) /\ e.sz = e.len \o <<0, 0, 0, 0>> /\ e.after = 0 /\ e.rest = 0
Step(e) ==
  CASE e.e = "Reset" -> TRUE
    [] e.e = "Enc" -> EncOK(e)
    [] e.e = "Len" -> LenOK(e)
    [] e.e = "PutSlice" -> PutSliceOK(e)
    [] e.e = "Dec" -> DecOK(e)
    [] e.e = "FixDec" -> FixDecOK(e)
    [] e.e = "SliceDec" -> SliceDecOK(e)
    [] e.e = "PutLong" -> PutLongOK(e)
    [] e.e = "GetLong" -> GetLongOK(e)
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
