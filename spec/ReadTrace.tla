------------------------------ MODULE ReadTrace ------------------------------
(* Decides recorded uses of read-only files of the POSIX environment.        *)
(* Focus {"bytes"}: C16; {"limits"}: C15 (and the bytes read within it).     *)
EXTENDS Rle, ReadFiles, FiniteSets, TLC, Json, IOUtils
CONSTANTS Focus, M, F
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, fs, h, m, f, kinds, seqs
tvars == <<l, fs, h, m, f, kinds, seqs>>
\* fs: name -> contents; h: handle -> [n, pos, m, f, s]; m, f: maps and descriptors held in all;
\* kinds: shapes of random reads seen (for coverage); seqs: open sequential files
Bytes == "bytes" \in Focus
Limits == "limits" \in Focus
Upd(g, x, v) == [y \in DOMAIN g \cup {x} |-> IF y = x THEN v ELSE g[y]]
Del(g, x) == [y \in DOMAIN g \ {x} |-> g[y]]
None == [x \in {} |-> 0]
Same(e) == Limits => e.maps = m /\ e.fds = f
\* bytes n clipped so that off + n never overflows: both are at most 2*10^9, files are small
SizeOf(x) == Size(fs[h[x].n])
Clipped(x, off, n) == IF off >= SizeOf(x) THEN <<>> ELSE Slice(fs[h[x].n], off, IF n > SizeOf(x) THEN SizeOf(x) ELSE n)
Inside(x, off, n) == off <= SizeOf(x) /\ n <= SizeOf(x) - off
Step(e) ==
  CASE e.e = "Reset" -> fs' = None /\ h' = None /\ m' = 0 /\ f' = 0 /\ seqs' = 0 /\ UNCHANGED kinds
    [] e.e = "File" -> fs' = Upd(fs, e.n, e.c) /\ UNCHANGED <<h, m, f, kinds, seqs>>
    [] e.e = "Grow" -> fs' = Upd(fs, e.n, Cat(fs[e.n], e.c)) /\ UNCHANGED <<h, m, f, kinds, seqs>>
    [] e.e = "Open" /\ e.st # "ok" ->
         \* a failing open takes nothing; it fails only for a reason
         /\ e.null /\ Same(e) /\ (e.inj > 0 \/ e.n \notin DOMAIN fs)
         /\ UNCHANGED <<fs, h, m, f, kinds, seqs>>
    [] e.e = "Open" /\ e.st = "ok" /\ e.k = "s" ->
         /\ ~e.null /\ e.n \in DOMAIN fs /\ (Limits => e.maps = m /\ e.fds = f + 1)
         /\ h' = Upd(h, e.h, [n |-> e.n, pos |-> 0, m |-> 0, f |-> 1, s |-> 1]) /\ m' = e.maps /\ f' = e.fds /\ seqs' = seqs + 1
         /\ UNCHANGED <<fs, kinds>>
    [] e.e = "Open" /\ e.st = "ok" /\ e.k = "r" ->
         /\ ~e.null /\ e.n \in DOMAIN fs
         /\ Limits => Takes(fs[e.n] = <<>>, e.inj > 0, m, f - seqs, e.maps, e.fds - seqs, M, F)
         /\ h' = Upd(h, e.h, [n |-> e.n, pos |-> 0, m |-> e.maps - m, f |-> e.fds - f, s |-> 0]) /\ m' = e.maps /\ f' = e.fds
         /\ UNCHANGED <<fs, kinds, seqs>>
    [] e.e = "Close" ->
         /\ Limits => e.maps = m - h[e.h].m /\ e.fds = f - h[e.h].f
         /\ m' = e.maps /\ f' = e.fds /\ h' = Del(h, e.h) /\ seqs' = seqs - h[e.h].s
         /\ UNCHANGED <<fs, kinds>>
    [] e.e = "SRead" ->
         /\ Same(e)
         /\ IF e.st = "ok"
            THEN LET k == Size(e.d) IN
                 /\ Bytes => /\ k <= e.len /\ e.d = Clipped(e.h, h[e.h].pos, k)
                             /\ k = 0 => (e.len = 0 \/ h[e.h].pos >= SizeOf(e.h))
                             /\ e.inj = 0
                 /\ h' = [h EXCEPT ![e.h].pos = @ + k]
            ELSE (Bytes => e.inj > 0) /\ UNCHANGED h
         /\ UNCHANGED <<fs, m, f, kinds, seqs>>
    [] e.e = "Skip" ->
         /\ Same(e)
         /\ IF e.st = "ok"
            THEN h' = [h EXCEPT ![e.h].pos = LET left == SizeOf(e.h) - @ IN IF e.len > left THEN SizeOf(e.h) ELSE @ + e.len]
            ELSE (Bytes => e.inj > 0 \/ e.huge) /\ UNCHANGED h
         /\ UNCHANGED <<fs, m, f, kinds, seqs>>
    [] e.e = "RRead" ->
         /\ Same(e)
         /\ IF e.st = "ok"
            THEN (Bytes \/ Limits) => e.inj = 0 /\ e.d = Clipped(e.h, e.off, e.len) /\ e.n = Size(e.d)
            ELSE (Bytes \/ Limits) => e.inj > 0 \/ ~Inside(e.h, e.off, e.len)
         /\ kinds' = kinds \cup {<<h[e.h].m, h[e.h].f, e.st, Inside(e.h, e.off, e.len)>>}
         /\ UNCHANGED <<fs, h, m, f, seqs>>
    [] OTHER -> FALSE
TraceInit == l = 1 /\ fs = None /\ h = None /\ m = 0 /\ f = 0 /\ kinds = {} /\ seqs = 0
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
