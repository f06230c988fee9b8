------------------------------ MODULE CacheLin ------------------------------
(***************************************************************************)
(* Decides recorded concurrent histories of the real cache: they must be   *)
(* linearizable with respect to LRUCache.  A call becomes effective in a   *)
(* silent step Lin between its Call and its Ret; whole-cache operations    *)
(* (prune, total charge) take effect partition by partition.               *)
(***************************************************************************)
EXTENDS LRUCache, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, s, cap, shards, pend, ids
tvars == <<l, s, cap, shards, pend, ids>>
Ids == 0..11
None == [o |-> "none"]
NoPend == [t \in Ids |-> None]
\* ids and keys of the entries destroyed between two states
Gone(before, new, after) == {<<i, IF i \in DOMAIN before.ent THEN before.ent[i].key ELSE new>> : i \in after.dead}
Lin(t) ==
  LET p == pend[t]
      Single(s2, r, new) == s' = s2 /\ pend' = [pend EXCEPT ![t] = [p EXCEPT !.todo = {}, !.r = r, !.dead = Gone(s, new, s2)]]
  IN
  /\ p.o # "none" /\ p.todo # {}
  /\ UNCHANGED <<l, cap, shards, ids>>
  /\ CASE p.o = "ins" -> Single(DoInsert(s, cap, p.id, p.k, p.s, p.c), p.id, p.k)
       [] p.o = "look" -> Single(DoLookup(s, p.k), LookupResult(s, p.k), "")
       [] p.o = "erase" -> Single(DoErase(s, p.k), 0, "")
       [] p.o = "rel" -> Single(DoRelease(s, p.id), p.id, "")
       [] p.o = "id" -> Single(Begin(s), 0, "")
       [] p.o = "prune" -> \E x \in p.todo :
            LET s2 == PruneShard(Begin(s), x) IN
            s' = s2 /\ pend' = [pend EXCEPT ![t].todo = @ \ {x}, ![t].dead = @ \cup Gone(s, "", s2)]
       [] p.o = "total" -> \E x \in p.todo :
            s' = s /\ pend' = [pend EXCEPT ![t].todo = @ \ {x}, ![t].r = @ + s.usage[x]]
Todo(e) == IF e.o \in {"prune", "total"} THEN shards ELSE {0}
DelSet(e) == {<<e.del[j][1], e.del[j][2]>> : j \in 1..Len(e.del)}
Fields(e) == [todo |-> Todo(e), r |-> 0, dead |-> {}]
Step(e) ==
  CASE e.e = "Reset" ->
         /\ s' = EmptyCache /\ cap' = PerShard(e.cap) /\ shards' = {e.shards[i] : i \in 1..Len(e.shards)}
         /\ pend' = NoPend /\ ids' = {}
    [] e.e = "Call" ->
         /\ pend[e.t] = None
         /\ e.o = "rel" => e.id \in DOMAIN s.ent /\ s.ent[e.id].refs > 0
         /\ pend' = [pend EXCEPT ![e.t] = Fields(e) @@ e] /\ UNCHANGED <<s, cap, shards, ids>>
    [] e.e = "Ret" ->
         LET p == pend[e.t] IN
         /\ p # None /\ p.todo = {}
         /\ IF p.o = "id" THEN e.r \notin ids /\ ids' = ids \cup {e.r} ELSE e.r = p.r /\ ids' = ids
         /\ DelSet(e) = p.dead /\ Len(e.del) = Cardinality(p.dead)
         /\ pend' = [pend EXCEPT ![e.t] = None] /\ UNCHANGED <<s, cap, shards>>
    [] e.e = "Destroy" ->
         /\ pend = NoPend /\ \A i \in DOMAIN s.ent : s.ent[i].refs = 0
         /\ DelSet(e) = Gone(s, "", DoDestroy(s)) /\ Len(e.del) = Cardinality(DOMAIN s.ent)
         /\ s' = EmptyCache /\ UNCHANGED <<cap, shards, pend, ids>>
    [] OTHER -> FALSE
\* a linearization point may be delayed until the next Ret that needs it
Due == l <= Len(Log) /\ Log[l].e = "Ret" /\ pend[Log[l].t] # None /\ pend[Log[l].t].todo # {}
TraceInit == l = 1 /\ s = EmptyCache /\ cap = 0 /\ shards = {} /\ pend = NoPend /\ ids = {}
TraceNext == \/ l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
             \/ Due /\ \E t \in Ids : Lin(t)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
