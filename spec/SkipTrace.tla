----------------------------- MODULE SkipTrace -----------------------------
(* Decides recorded single threaded runs of the real skip list (C05).       *)
EXTENDS OrderedSet, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, S, its
tvars == <<l, S, its>>

\* a recorded full iteration: maximal runs [first, stride, count]
ScanOK(q, up) == /\ \A i \in 1..Len(q) : q[i][3] > 1 => (IF up THEN q[i][2] > 0 ELSE q[i][2] < 0)
                 /\ S = IF up THEN Ascend(q, 1) ELSE Descend(q, Len(q))

Pos(i) == IF i \in DOMAIN its THEN its[i] ELSE NoPos
SetPos(i, p) == its' = [j \in DOMAIN its \cup {i} |-> IF j = i THEN p ELSE its[j]]

Step(e) ==
  \/ e.e = "Reset" /\ S' = <<>> /\ its' = [x \in {} |-> 0]
  \/ e.e = "Ins" /\ ~HasIn(S, e.k) /\ S' = InsIn(S, e.k) /\ UNCHANGED its
  \/ e.e = "Bulk" /\ S' = Merge(S, Prog(e.a, e.d, e.n)) /\ UNCHANGED its
  \/ e.e = "Has" /\ e.r = HasIn(S, e.k) /\ UNCHANGED <<S, its>>
  \/ e.e = "New" /\ e.p = NoPos /\ SetPos(e.i, NoPos) /\ UNCHANGED S
  \/ e.e = "Seek" /\ e.p = SeekIn(S, e.t) /\ SetPos(e.i, e.p) /\ UNCHANGED S
  \/ e.e = "First" /\ e.p = FirstIn(S) /\ SetPos(e.i, e.p) /\ UNCHANGED S
  \/ e.e = "Last" /\ e.p = LastIn(S) /\ SetPos(e.i, e.p) /\ UNCHANGED S
  \/ e.e = "Next" /\ Pos(e.i) # NoPos /\ e.p = NextIn(S, Pos(e.i)) /\ SetPos(e.i, e.p) /\ UNCHANGED S
  \/ e.e = "Prev" /\ Pos(e.i) # NoPos /\ e.p = PrevIn(S, Pos(e.i)) /\ SetPos(e.i, e.p) /\ UNCHANGED S
  \* the position of an idle iterator is unaffected by insertions
  \/ e.e = "At" /\ e.p = Pos(e.i) /\ UNCHANGED <<S, its>>
  \/ e.e = "Scan" /\ ScanOK(e.runs, e.up) /\ UNCHANGED <<S, its>>

TraceInit == l = 1 /\ S = <<>> /\ its = [x \in {} |-> 0]
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
