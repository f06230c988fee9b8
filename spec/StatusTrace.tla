----------------------------- MODULE StatusTrace -----------------------------
(* Decides recorded uses of Status (C23).  After every operation the driver  *)
(* records what all live objects show: code by predicates and ToString.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, v         \* v: slot -> [c, s]: code and printed bytes; "moved" = any
tvars == <<l, v>>
Ascii(c) == CASE c = "ok" -> <<79, 75>>
   [] c = "nf" -> <<78,111,116,70,111,117,110,100,58,32>>
   [] c = "corr" -> <<67,111,114,114,117,112,116,105,111,110,58,32>>
   [] c = "ns" -> <<78,111,116,32,105,109,112,108,101,109,101,110,116,101,100,58,32>>
   [] c = "inv" -> <<73,110,118,97,108,105,100,32,97,114,103,117,109,101,110,116,58,32>>
   [] c = "io" -> <<73,79,32,101,114,114,111,114,58,32>>
Printed(c, m1, m2) == IF c = "ok" THEN Ascii(c)
   ELSE Ascii(c) \o m1 \o (IF m2 = <<>> THEN <<>> ELSE <<58, 32>> \o m2)
Moved == [c |-> "moved", s |-> <<>>]
Set(f, i, x) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN x ELSE f[j]]
\* what the objects show must agree with their values
Shows(w, e) ==
   /\ {e.sh[i].i : i \in 1..Len(e.sh)} = DOMAIN w
   /\ \A i \in 1..Len(e.sh) : LET x == e.sh[i] IN
        \/ w[x.i].c = "moved"
        \/ /\ x.p = <<w[x.i].c>>           \* exactly this predicate is true
           /\ x.s = w[x.i].s
\* adopt what a moved-from object shows (it must not change any more)
Adopt(w, e) == [j \in DOMAIN w |-> IF w[j].c # "moved" THEN w[j]
   ELSE LET k == CHOOSE i \in 1..Len(e.sh) : e.sh[i].i = j IN [c |-> e.sh[k].p[1], s |-> e.sh[k].s]]
Then(w, e) == Shows(w, e) /\ v' = Adopt(w, e)
Step(e) ==
  CASE e.e = "Reset" -> v' = [x \in {} |-> 0]
    [] e.e = "make" -> Then(Set(v, e.s, [c |-> e.c, s |-> Printed(e.c, e.m1, e.m2)]), e)
    [] e.e = "cctor" -> Then(Set(v, e.s, v[e.t]), e)
    [] e.e = "mctor" -> Then(Set(Set(v, e.s, v[e.t]), e.t, Moved), e)
    [] e.e = "cass" -> Then(Set(v, e.s, v[e.t]), e)
    [] e.e = "mass" -> Then(IF e.s = e.t THEN v ELSE Set(Set(v, e.s, v[e.t]), e.t, Moved), e)
    [] e.e = "kill" -> Then([j \in DOMAIN v \ {e.s} |-> v[j]], e)
    [] e.e = "End" -> e.leaked = 0 /\ v' = [x \in {} |-> 0]
    [] OTHER -> FALSE
TraceInit == l = 1 /\ v = [x \in {} |-> 0]
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
