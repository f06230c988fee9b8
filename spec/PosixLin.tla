------------------------------ MODULE PosixLin ------------------------------
(***************************************************************************)
(* Decides recorded concurrent histories of the real POSIX environment:    *)
(* every operation takes effect at one moment (silent step Lin) between    *)
(* its call and its return; handles stay with the file they were opened    *)
(* on, whatever happens to its name.  Listing a directory is not required  *)
(* to be atomic: names present all the time are listed, names never        *)
(* present are not.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, name,  \* name -> file number, 0 for a directory
          data,     \* file number -> bytes
          han,      \* handle -> [f: file, pos: next byte, len: size when opened]
          pend
tvars == <<l, name, data, han, pend>>
Ids == 0..7
NoPend == [t \in Ids |-> [o |-> "none", done |-> TRUE]]
Upd(g, x, v) == [y \in DOMAIN g \cup {x} |-> IF y = x THEN v ELSE g[y]]
Del(g, x) == [y \in DOMAIN g \ {x} |-> g[y]]
RECURSIVE RetAt(_, _)
RetAt(i, t) == IF i > Len(Log) \/ Log[i].e \notin {"Call", "Ret"} THEN 0
               ELSE IF Log[i].t = t THEN i ELSE RetAt(i + 1, t)
Results(i) == LET j == RetAt(i + 1, Log[i].t) IN
  IF j = 0 THEN [st |-> "none"] ELSE [x \in DOMAIN Log[j] \ {"e", "t"} |-> Log[j][x]]
Min(a, b) == IF a < b THEN a ELSE b
Part(c, off, n) == SubSeq(c, off + 1, Min(Len(c), off + n))
Over(c, p, d) == [i \in 1..(IF p + Len(d) > Len(c) THEN p + Len(d) ELSE Len(c)) |->
                  IF i > p /\ i <= p + Len(d) THEN d[i - p] ELSE IF i <= Len(c) THEN c[i] ELSE 0]
Has(n) == n \in DOMAIN name
IsDir(n) == Has(n) /\ name[n] = 0
IsFile(n) == Has(n) /\ name[n] # 0
Fresh == Cardinality(DOMAIN data) + 1
Same == UNCHANGED <<name, data, han>>
Bad(e, st) == e.st = st /\ Same                         \* failed, nothing changed
Open(e, f) == han' = Upd(han, e.h, [f |-> f, pos |-> 0, len |-> Len(data'[f]), app |-> e.o = "append"])
Opened(e) == e.st = "ok" /\ ~e.null
\* what the operation does at its moment
Effect(e) ==
  CASE e.o = "exists" -> (e.r = 1) = Has(e.n) /\ Same
    [] e.o = "size" -> IF IsFile(e.n) THEN e.st = "ok" /\ e.r = Len(data[name[e.n]]) /\ Same ELSE Bad(e, "nf")
    [] e.o = "remove" -> IF ~Has(e.n) THEN Bad(e, "nf")
                         ELSE e.st = "ok" /\ name' = Del(name, e.n) /\ UNCHANGED <<data, han>>
    [] e.o = "rename" -> IF ~Has(e.n) THEN Bad(e, "nf")
                         ELSE /\ e.st = "ok" /\ UNCHANGED <<data, han>>
                              /\ name' = IF e.n = e.to THEN name ELSE Upd(Del(name, e.n), e.to, name[e.n])
    [] e.o = "mkdir" -> IF Has(e.n) THEN Bad(e, "io") ELSE e.st = "ok" /\ name' = Upd(name, e.n, 0) /\ UNCHANGED <<data, han>>
    [] e.o = "rmdir" -> IF ~Has(e.n) THEN Bad(e, "nf") ELSE e.st = "ok" /\ name' = Del(name, e.n) /\ UNCHANGED <<data, han>>
    [] e.o \in {"seqopen", "randopen"} ->
         IF ~Has(e.n) THEN e.null /\ Bad(e, "nf")
         ELSE Opened(e) /\ UNCHANGED <<name, data>> /\ Open(e, name[e.n])
    [] e.o \in {"create", "append"} ->
         /\ Opened(e)
         /\ IF Has(e.n) THEN /\ UNCHANGED name
                             /\ data' = (IF e.o = "create" THEN [data EXCEPT ![name[e.n]] = <<>>] ELSE data)
                             /\ Open(e, name[e.n])
            ELSE name' = Upd(name, e.n, Fresh) /\ data' = Upd(data, Fresh, <<>>) /\ Open(e, Fresh)
    [] e.o = "rread" ->
         LET h == han[e.h] IN
         /\ Same
         /\ \/ e.st = "ok" /\ e.got = Part(data[h.f], e.off, e.len)
            \* a file mapped when it was shorter, or one read beyond its end
            \/ e.st = "io" /\ e.off + e.len > h.len
    [] e.o = "sread" ->
         LET h == han[e.h]
             c == Part(data[h.f], h.pos, e.len)
         IN e.st = "ok" /\ e.got = c /\ han' = [han EXCEPT ![e.h].pos = @ + Len(c)] /\ UNCHANGED <<name, data>>
    [] e.o = "app" ->
         LET h == han[e.h]
             c == data[h.f]
         IN \* at the end of the file ...
            /\ \/ data' = [data EXCEPT ![h.f] = @ \o e.d]
               \* ... or, where several handles write to one file, after
               \* what this handle wrote last (it was not opened to append)
               \/ ~h.app /\ h.pos # Len(c) /\ data' = [data EXCEPT ![h.f] = Over(c, h.pos, e.d)]
            /\ e.st = "ok" /\ han' = [han EXCEPT ![e.h].pos = @ + Len(e.d)] /\ UNCHANGED name
    [] e.o = "close" -> e.st = "ok" /\ han' = Del(han, e.h) /\ UNCHANGED <<name, data>>
    [] OTHER -> FALSE
Listed(e) == {e.names[i] : i \in 1..Len(e.names)} \ {".", ".."}
\* listings in progress: must shrinks, may grows
Lists(p) == [t \in Ids |-> IF p[t].o = "list" /\ ~p[t].done
                           THEN [p[t] EXCEPT !.must = @ \cap DOMAIN name', !.may = @ \cup DOMAIN name'] ELSE p[t]]
Lin(t) ==
  /\ ~pend[t].done /\ pend[t].o # "list" /\ UNCHANGED l
  /\ Effect(pend[t])
  /\ pend' = Lists([pend EXCEPT ![t].done = TRUE])
Step(e) ==
  CASE e.e = "Reset" ->
         /\ name' = [n \in {e.files[i].n : i \in 1..Len(e.files)} |-> CHOOSE i \in 1..Len(e.files) : e.files[i].n = n]
         /\ data' = [i \in 1..Len(e.files) |-> e.files[i].d]
         \* handle 0: shared random reading of s0
         /\ han' = [h \in {0} |-> LET i == CHOOSE i \in 1..Len(e.files) : e.files[i].n = "s0"
                                 IN [f |-> i, pos |-> 0, len |-> Len(e.files[i].d), app |-> FALSE]]
         /\ pend' = NoPend
    [] e.e = "Call" ->
         /\ pend[e.t].o = "none"
         /\ pend' = [pend EXCEPT ![e.t] = [done |-> FALSE, must |-> DOMAIN name, may |-> DOMAIN name] @@ Results(l) @@ e]
         /\ Same
    [] e.e = "Ret" /\ pend[e.t].o = "list" ->
         /\ e.st = "ok" /\ Len(e.names) = Cardinality({e.names[i] : i \in 1..Len(e.names)})
         /\ pend[e.t].must \subseteq Listed(e) /\ Listed(e) \subseteq pend[e.t].may
         /\ pend' = [pend EXCEPT ![e.t] = NoPend[e.t]] /\ Same
    [] e.e = "Ret" ->
         /\ pend[e.t].o # "none" /\ pend[e.t].done
         /\ pend' = [pend EXCEPT ![e.t] = NoPend[e.t]] /\ Same
    [] e.e = "End" ->
         /\ pend = NoPend /\ e.same /\ DOMAIN han = {0}
         /\ DOMAIN name = {e.files[i].n : i \in 1..Len(e.files)}
         /\ \A i \in 1..Len(e.files) :
              LET f == name[e.files[i].n] IN IF e.files[i].dir THEN f = 0 ELSE f # 0 /\ data[f] = e.files[i].d
         /\ UNCHANGED <<name, data, han, pend>>
    [] OTHER -> FALSE
Due == l <= Len(Log) /\ Log[l].e = "Ret" /\ ~pend[Log[l].t].done
TraceInit == l = 1 /\ name = [x \in {} |-> 0] /\ data = [x \in {} |-> 0] /\ han = [x \in {} |-> 0] /\ pend = NoPend
TraceNext == \/ l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
             \/ Due /\ \E t \in Ids : Lin(t)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
