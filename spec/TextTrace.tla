------------------------------ MODULE TextTrace ------------------------------
(* Decides recorded calls of util/logging (C21).                              *)
EXTENDS TextForms, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l
Dec(v) == LET d == InBase(Rev(v), 256, 10) IN [i \in 1..Len(d) |-> 48 + d[i]]
MaxDigits == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
FmtOK(e) == e.out = e.pre \o Dec(e.v)
ParseOK(e) ==
  LET n == LeadLen(e.in, 1, 48, 10)
      ds == Strip([i \in 1..n |-> e.in[i] - 48])
  IN IF n = 0 THEN ~e.ok
     ELSE IF ~NumLE(ds, MaxDigits) THEN ~e.ok
     ELSE /\ e.ok /\ e.rest = SubSeq(e.in, n + 1, Len(e.in))
          /\ Strip(Rev(e.v)) = Strip(InBase(ds, 10, 256))
EscOK(e) == e.out = e.pre \o Escape(e.in)
\* runs of one byte each: every byte of a run is escaped alike
EscLongOK(e) == e.out = [i \in 1..Len(e.runs) |-> <<Esc1(e.runs[i][1]), e.runs[i][2]>>]
\* any number of zeros in front of e.in count as one
ParseLongOK(e) == ParseOK([e EXCEPT !.in = IF e.z THEN <<48>> \o @ ELSE @])
Step(e) ==
  CASE e.e = "Reset" -> TRUE
    [] e.e = "Fmt" -> FmtOK(e)
    [] e.e = "Parse" -> ParseOK(e)
    [] e.e = "Esc" -> EscOK(e)
    [] e.e = "EscLong" -> EscLongOK(e)
    [] e.e = "ParseLong" -> ParseLongOK(e)
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
