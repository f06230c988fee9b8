----------------------------- MODULE LRUCache -----------------------------
(***************************************************************************)
(* The sharded LRU cache (util/cache.cc).                                  *)
(*                                                                         *)
(* Structured like the implementation: one operator per critical section   *)
(* (Insert, Lookup, Release, Erase, Prune, destructor), each built from     *)
(* the same sub-steps Ref, Unref and FinishErase.  The operators work on a *)
(* record `s` so that the design model (below), the sequential trace        *)
(* specification (CacheTrace) and the linearizability trace specification   *)
(* (CacheLin) share one definition.                                        *)
(*                                                                         *)
(*   s.ent    entry id -> [key, shard, charge, refs, mapped]: the entries  *)
(*            not yet destroyed; refs counts client handles only           *)
(*   s.table  key -> id of the current mapping                             *)
(*   s.lru    shard -> sequence of idle (mapped, refs = 0) entries, oldest *)
(*            first                                                        *)
(*   s.usage  shard -> sum of the charges of the mapped entries            *)
(*   s.dead   set of ids whose deleter ran during the current operation    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NumShards == 16
PerShard(cap) == (cap + NumShards - 1) \div NumShards

EmptyFcn == [x \in {} |-> 0]
EmptyCache == [ent |-> EmptyFcn, table |-> EmptyFcn,
               lru |-> [sh \in 0..(NumShards-1) |-> <<>>],
               usage |-> [sh \in 0..(NumShards-1) |-> 0], dead |-> {}]

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
RECURSIVE SeqWithout(_, _)
SeqWithout(q, x) == IF q = <<>> THEN <<>>
                    ELSE IF Head(q) = x THEN Tail(q)
                    ELSE <<Head(q)>> \o SeqWithout(Tail(q), x)

Begin(s) == [s EXCEPT !.dead = {}]

(* the last reference of an unmapped entry is gone: run its deleter *)
Destroy(s, id) == [s EXCEPT !.ent = Without(@, id), !.dead = @ \cup {id}]

(* a client obtains a handle *)
Ref(s, id) ==
  LET e == s.ent[id] IN
  [s EXCEPT !.ent[id].refs = @ + 1,
            !.lru[e.shard] = IF e.mapped /\ e.refs = 0 THEN SeqWithout(@, id) ELSE @]

(* a client returns a handle *)
Unref(s, id) ==
  LET e == s.ent[id] IN
  IF e.refs = 1
  THEN IF e.mapped
       THEN [s EXCEPT !.ent[id].refs = 0, !.lru[e.shard] = Append(@, id)]
       ELSE Destroy(s, id)
  ELSE [s EXCEPT !.ent[id].refs = @ - 1]

(* the entry has left the hash table: drop the cache's own reference *)
FinishErase(s, id) ==
  LET e == s.ent[id]
      s1 == [s EXCEPT !.table = Without(@, e.key),
                      !.usage[e.shard] = @ - e.charge,
                      !.lru[e.shard] = IF e.refs = 0 THEN SeqWithout(@, id) ELSE @,
                      !.ent[id].mapped = FALSE]
  IN IF e.refs = 0 THEN Destroy(s1, id) ELSE s1

RECURSIVE Evict(_, _, _)
Evict(s, sh, cap) ==
  IF s.usage[sh] > cap /\ s.lru[sh] # <<>>
  THEN Evict(FinishErase(s, Head(s.lru[sh])), sh, cap)
  ELSE s

RECURSIVE PruneShard(_, _)
PruneShard(s, sh) == IF s.lru[sh] = <<>> THEN s
                     ELSE PruneShard(FinishErase(s, Head(s.lru[sh])), sh)

Entry(key, sh, charge, mapped) ==
  [key |-> key, shard |-> sh, charge |-> charge, refs |-> 1, mapped |-> mapped]

(* ------------------------------ operations ----------------------------- *)
DoInsert(s0, cap, id, key, sh, charge) ==
  LET s == Begin(s0) IN
  IF cap = 0
  THEN [s EXCEPT !.ent = With(@, id, Entry(key, sh, charge, FALSE))]
  ELSE LET s1 == IF key \in DOMAIN s.table THEN FinishErase(s, s.table[key]) ELSE s
           s2 == [s1 EXCEPT !.ent = With(@, id, Entry(key, sh, charge, TRUE)),
                            !.table = With(@, key, id),
                            !.usage[sh] = @ + charge]
       IN Evict(s2, sh, cap)

LookupResult(s, key) == IF key \in DOMAIN s.table THEN s.table[key] ELSE 0
DoLookup(s0, key) == LET s == Begin(s0) IN
  IF key \in DOMAIN s.table THEN Ref(s, s.table[key]) ELSE s
DoRelease(s0, id) == Unref(Begin(s0), id)
\* n handles obtained, or returned, by one client in a row
DoLookupN(s0, key, n) == IF n = 0 \/ key \notin DOMAIN s0.table THEN Begin(s0)
  ELSE LET s == DoLookup(s0, key) IN [s EXCEPT !.ent[s.table[key]].refs = @ + n - 1]
DoReleaseN(s0, id, n) == DoRelease([s0 EXCEPT !.ent[id].refs = @ - (n - 1)], id)
DoErase(s0, key) == LET s == Begin(s0) IN
  IF key \in DOMAIN s.table THEN FinishErase(s, s.table[key]) ELSE s
RECURSIVE DoPruneFrom(_, _)
DoPruneFrom(s, sh) == IF sh = NumShards THEN s ELSE DoPruneFrom(PruneShard(s, sh), sh + 1)
DoPrune(s0) == DoPruneFrom(Begin(s0), 0)
(* destruction of the cache: legal only without outstanding handles *)
DoDestroy(s0) == LET s == Begin(s0) IN
  [EmptyCache EXCEPT !.dead = DOMAIN s.ent]

RECURSIVE SumUsage(_, _)
SumUsage(s, sh) == IF sh = NumShards THEN 0 ELSE s.usage[sh] + SumUsage(s, sh + 1)
TotalCharge(s) == SumUsage(s, 0)

(* ------------------------------ invariants ----------------------------- *)
RECURSIVE SumCharge(_, _)
SumCharge(s, ids) == IF ids = {} THEN 0
  ELSE LET x == CHOOSE i \in ids : TRUE IN s.ent[x].charge + SumCharge(s, ids \ {x})
Range(q) == {q[i] : i \in 1..Len(q)}
Mapped(s) == {i \in DOMAIN s.ent : s.ent[i].mapped}

TableOK(s) ==       \* table and mapped flags agree; one entry per key
  /\ \A k \in DOMAIN s.table : s.table[k] \in Mapped(s) /\ s.ent[s.table[k]].key = k
  /\ \A i \in Mapped(s) : s.ent[i].key \in DOMAIN s.table /\ s.table[s.ent[i].key] = i
LruOK(s) ==         \* the LRU lists hold exactly the idle mapped entries, once
  \A sh \in 0..(NumShards-1) :
    /\ Range(s.lru[sh]) = {i \in Mapped(s) : s.ent[i].refs = 0 /\ s.ent[i].shard = sh}
    /\ Cardinality(Range(s.lru[sh])) = Len(s.lru[sh])
UsageOK(s) == \A sh \in 0..(NumShards-1) :
    s.usage[sh] = SumCharge(s, {i \in Mapped(s) : s.ent[i].shard = sh})
LifeOK(s) ==        \* an entry exists iff it is mapped or referenced
  /\ \A i \in DOMAIN s.ent : s.ent[i].mapped \/ s.ent[i].refs > 0
  /\ s.dead \cap DOMAIN s.ent = {}
=============================================================================
