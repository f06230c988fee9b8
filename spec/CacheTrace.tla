---------------------------- MODULE CacheTrace ----------------------------
(* Decides recorded sequential runs of the real cache against LRUCache.    *)
(*                                                                         *)
(* Focus says which aspects of the specification are decided ("map" = C01, *)
(* "life" = C02, "lru" = C03); the choices the other aspects would make    *)
(* are adopted from the observation, so that each property is judged on    *)
(* its own.  With Focus = {"map","life","lru"} nothing is adopted.         *)
EXTENDS LRUCache, TLC, Json, IOUtils

CONSTANT Focus

Log == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES l, s, cap, live, q      \* q: the mapped entries, oldest first, as ranges (mass runs only)
tvars == <<l, s, cap, live, q>>

On(a) == a \in Focus
DelIds(e) == {e.del[j][1] : j \in 1..Len(e.del)}

\* life: exactly the entries the specification destroys, once each, with their key
DelOK(before, new, after, e) ==
  On("life") =>
    /\ Cardinality(DelIds(e)) = Len(e.del)
    /\ DelIds(e) = after.dead
    /\ \A j \in 1..Len(e.del) :
         LET id == e.del[j][1] IN
         e.del[j][2] = (IF id \in DOMAIN before.ent THEN before.ent[id].key ELSE new)
TotOK(after, e) == On("lru") => e.tot = TotalCharge(after)

Idle(st, sh) == {i \in Mapped(st) : st.ent[i].refs = 0 /\ st.ent[i].shard = sh}
RECURSIVE FinishAll(_, _)
FinishAll(st, ids) == IF ids = {} THEN st
   ELSE LET i == CHOOSE j \in ids : TRUE IN FinishAll(FinishErase(st, i), ids \ {i})

InsAdopt(st0, e) ==
  IF cap = 0 THEN DoInsert(st0, 0, e.id, e.k, e.s, e.c)
  ELSE LET big == DoInsert([st0 EXCEPT !.usage[e.s] = 0], 2000000000, e.id, e.k, e.s, e.c)
           \* big: the insertion without any eviction
           b2 == [big EXCEPT !.usage = st0.usage]
           gone == {i \in DelIds(e) : i \in Idle(b2, e.s)}
           r == FinishAll(b2, gone)
       IN r
OldOf(st, k) == IF k \in DOMAIN st.table THEN {st.table[k]} ELSE {}
EvSet(before, ids, e) == {i \in ids : i \in Mapped(before) /\ before.ent[i].refs = 0} \ OldOf(before, e.k)

DoReset(e) ==
  /\ ~live
  /\ s' = EmptyCache /\ cap' = PerShard(e.cap) /\ live' = TRUE
  /\ On("lru") => e.tot = 0
DoIns(e) ==
  LET s2 == IF On("lru") THEN DoInsert(s, cap, e.id, e.k, e.s, e.c) ELSE InsAdopt(s, e) IN
  /\ s' = s2
  /\ On("map") => e.v = e.id
  /\ On("life") => e.v = e.id
  /\ On("lru") => EvSet(s, DelIds(e), e) = EvSet(s, s2.dead, e)
  /\ DelOK(s, e.k, s2, e) /\ TotOK(s2, e)
DoLook(e) ==
  LET s2 == IF On("map") THEN DoLookup(s, e.k)
            ELSE IF e.r \in DOMAIN s.ent THEN Ref(Begin(s), e.r) ELSE Begin(s) IN
  /\ s' = s2
  /\ On("map") => e.r = LookupResult(s, e.k)
  /\ On("life") => e.r \in DOMAIN s.ent \cup {0}
  /\ DelOK(s, "", s2, e) /\ TotOK(s2, e)
DoRel(e) ==
  LET s2 == IF e.id \in DOMAIN s.ent /\ s.ent[e.id].refs > 0 THEN DoRelease(s, e.id) ELSE Begin(s) IN
  /\ s' = s2
  /\ On("life") => e.v = e.id
  /\ DelOK(s, "", s2, e) /\ TotOK(s2, e)
\* n lookups, or releases, in a row: as many single ones
DoMany(e) ==
  LET s2 == IF On("map") THEN DoLookupN(s, e.k, e.n)
            ELSE IF e.r \in DOMAIN s.ent THEN [Ref(Begin(s), e.r) EXCEPT !.ent[e.r].refs = @ + e.got - 1] ELSE Begin(s) IN
  /\ s' = s2
  /\ On("map") => e.r = LookupResult(s, e.k) /\ e.same /\ e.got = (IF e.r = 0 THEN 0 ELSE e.n)
  /\ On("life") => e.r \in DOMAIN s.ent \cup {0} /\ e.same
  /\ DelOK(s, "", s2, e) /\ TotOK(s2, e)
DoManyRel(e) ==
  LET s2 == IF e.id \in DOMAIN s.ent /\ s.ent[e.id].refs >= e.n THEN DoReleaseN(s, e.id, e.n) ELSE Begin(s) IN
  /\ s' = s2
  /\ On("life") => e.v = e.id
  /\ DelOK(s, "", s2, e) /\ TotOK(s2, e)
DoEr(e) == LET s2 == DoErase(s, e.k) IN
  s' = s2 /\ DelOK(s, "", s2, e) /\ TotOK(s2, e)
DoPr(e) ==
  LET s2 == DoPrune(s) IN
  /\ s' = s2
  /\ DelOK(s, "", s2, e) /\ TotOK(s2, e)
  /\ On("lru") => {i \in DelIds(e) : i \in Mapped(s) /\ s.ent[i].refs = 0} = s2.dead
DoVals(e) ==
  /\ s' = Begin(s)
  /\ On("life") => e.got = e.want
  /\ DelOK(s, "", Begin(s), e) /\ TotOK(s, e)
DoDest(e) ==
  LET s2 == DoDestroy(s) IN
  /\ s' = s2 /\ live' = FALSE /\ UNCHANGED cap
  /\ DelOK(s, "", s2, e)

(* Mass runs: many entries of one partition and of one charge, entry i under *)
(* key i, every handle returned at once, entries touched in ascending order. *)
(* The partition is then just the queue q of its entries, oldest first, and  *)
(* insertion drops from the front what is beyond the capacity.  Sets of      *)
(* entries are sequences of disjoint ranges; q is sorted whenever it is      *)
(* compared with a set.                                                      *)
Num(r) == r[2] - r[1] + 1
RECURSIVE Count(_)
Count(x) == IF x = <<>> THEN 0 ELSE Num(x[1]) + Count(Tail(x))
RECURSIVE DropN(_, _)          \* the first n entries of a queue removed
DropN(x, n) == IF n <= 0 \/ x = <<>> THEN x
   ELSE IF Num(x[1]) <= n THEN DropN(Tail(x), n - Num(x[1]))
   ELSE <<<<x[1][1] + n, x[1][2]>>>> \o Tail(x)
RECURSIVE TakeN(_, _)
TakeN(x, n) == IF n <= 0 \/ x = <<>> THEN <<>>
   ELSE IF Num(x[1]) <= n THEN <<x[1]>> \o TakeN(Tail(x), n - Num(x[1]))
   ELSE <<<<x[1][1], x[1][1] + n - 1>>>>
RECURSIVE Inside(_, _, _)      \* what of x lies in lo..hi
Inside(x, lo, hi) == IF x = <<>> THEN <<>>
   ELSE LET a == IF x[1][1] > lo THEN x[1][1] ELSE lo
            b == IF x[1][2] < hi THEN x[1][2] ELSE hi
        IN (IF a <= b THEN <<<<a, b>>>> ELSE <<>>) \o Inside(Tail(x), lo, hi)
MaxId == 2000000000
OutsideOf(x, lo, hi) == LET f[k \in 0..Len(x)] == IF k = 0 THEN <<>>
       ELSE f[k-1] \o Inside(<<x[k]>>, 0, lo - 1) \o Inside(<<x[k]>>, hi + 1, MaxId) IN f[Len(x)]
\* a canonical form of the set: ascending, adjacent ranges joined
RECURSIVE Join(_)
Join(x) == IF Len(x) < 2 THEN x
   ELSE IF x[1][2] + 1 = x[2][1] THEN Join(<<<<x[1][1], x[2][2]>>>> \o Tail(Tail(x)))
   ELSE <<x[1]>> \o Join(Tail(x))
SetOf(x) == Join(SortSeq(x, LAMBDA a, b : a[1] < b[1]))
RECURSIVE Minus(_, _)
Minus(x, y) == IF y = <<>> THEN x ELSE Minus(OutsideOf(x, y[1][1], y[1][2]), Tail(y))
DoMass(e) ==
  LET gone0 == Inside(q, e.lo, e.hi)             \* the entries the operation addresses
      all == CASE e.o = "insert" -> OutsideOf(q, e.lo, e.hi) \o <<<<e.lo, e.hi>>>>
               [] e.o = "lookup" -> OutsideOf(q, e.lo, e.hi) \o gone0
               [] OTHER -> q
      per == cap \div e.c
      out == CASE e.o = "insert" -> TakeN(all, Count(all) - per)
               [] e.o = "erase" -> gone0
               [] e.o = "prune" -> q
               [] OTHER -> <<>>
      found == CASE e.o = "insert" -> <<<<e.lo, e.hi>>>> [] e.o = "lookup" -> gone0 [] OTHER -> <<>>
      out2 == IF On("lru") THEN out ELSE e.del     \* which go is decided by "lru" only
  IN /\ q' = (CASE e.o = "insert" -> Minus(all, out2) [] e.o = "lookup" -> all [] e.o = "erase" -> OutsideOf(q, e.lo, e.hi)
                [] OTHER -> Minus(q, out2))
     /\ On("map") => e.vals /\ e.found = SetOf(found)
     /\ On("life") => /\ e.keys /\ e.vals /\ SetOf(e.del) = e.del
                      /\ Minus(e.del, all \o q) = <<>>           \* only entries there were, each at most once
                      /\ e.o = "erase" => e.del = SetOf(gone0)
                      /\ e.o = "prune" => e.del = SetOf(q)
                      /\ e.o = "lookup" => e.del = <<>>
     /\ On("lru") => e.del = SetOf(out) /\ e.tot = Count(q') * e.c
     /\ s' = s
DoMassEnd(e) == /\ On("life") => e.del = SetOf(q) /\ e.keys
                /\ q' = <<>> /\ live' = FALSE /\ UNCHANGED <<s, cap>>

Step(e) ==
  \/ e.e = "Reset" /\ DoReset(e) /\ q' = <<>>
  \/ e.e = "Destroy" /\ DoDest(e) /\ UNCHANGED q
  \/ e.e = "Mass" /\ live /\ DoMass(e) /\ UNCHANGED <<cap, live>>
  \/ e.e = "MassEnd" /\ live /\ DoMassEnd(e)
  \/ /\ live /\ UNCHANGED <<cap, live, q>>
     /\ \/ e.e = "Ins" /\ DoIns(e)
        \/ e.e = "Look" /\ DoLook(e)
        \/ e.e = "Rel" /\ DoRel(e)
        \/ e.e = "Many" /\ DoMany(e)
        \/ e.e = "ManyRel" /\ DoManyRel(e)
        \/ e.e = "Erase" /\ DoEr(e)
        \/ e.e = "Prune" /\ DoPr(e)
        \/ e.e = "Vals" /\ DoVals(e)
        \/ e.e = "Id" /\ s' = Begin(s) /\ DelOK(s, "", Begin(s), e) /\ TotOK(s, e)

TraceInit == l = 1 /\ s = EmptyCache /\ cap = 0 /\ live = FALSE /\ q = <<>>
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars

ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
\* the specification's own state stays consistent along real runs
StateOK == TableOK(s) /\ LruOK(s) /\ UsageOK(s) /\ LifeOK(s)
===========================================================================
