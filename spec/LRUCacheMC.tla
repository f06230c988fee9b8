---------------------------- MODULE LRUCacheMC ----------------------------
(* Design model of the cache: a client performs any legal operation.       *)
EXTENDS LRUCache, TLC, Json

CONSTANTS Keys,        \* e.g. {"a","b","c"}
          Charges,     \* e.g. {1,2}
          Cap,         \* capacity of one partition
          MaxIns,      \* number of insertions explored
          MaxHandles   \* outstanding handles per entry

VARIABLES s,           \* cache state
          n,           \* number of insertions so far (next id is n+1)
          born,        \* ids ever inserted -> [key, charge]
          died,        \* id -> number of deleter calls
          idle,        \* entries by the moment their last handle was returned, oldest first
          last         \* the operation just taken, as a JSON string (for tours)
vars == <<s, n, born, died, idle, last>>

ShardOf(k) == IF k = "z" THEN 1 ELSE 0     \* at most one key in a second shard

Init == s = EmptyCache /\ n = 0 /\ born = EmptyFcn /\ died = EmptyFcn /\ idle = <<>> /\ last = "init"

Bury(s2) == died' = [i \in DOMAIN died \cup s2.dead |->
               (IF i \in DOMAIN died THEN died[i] ELSE 0) + (IF i \in s2.dead THEN 1 ELSE 0)]
Op(op) == last' = ToJson(op)
\* i: the entry used by this operation (0: none); g: whether its last handle is being returned
Idle(i, g) == LET q == SelectSeq(idle, LAMBDA j : j # i /\ j \in DOMAIN s'.ent) IN
  idle' = (IF g /\ i \in DOMAIN s'.ent THEN Append(q, i) ELSE q)

Insert(k, c) ==
  /\ n < MaxIns
  /\ LET s2 == DoInsert(s, Cap, n + 1, k, ShardOf(k), c) IN
       s' = s2 /\ Bury(s2)
  /\ n' = n + 1
  /\ born' = With(born, n + 1, [key |-> k, charge |-> c])
  /\ Op([o |-> "ins", k |-> k, c |-> c]) /\ Idle(0, FALSE)
Lookup(k) ==
  /\ k \in DOMAIN s.table => s.ent[s.table[k]].refs < MaxHandles
  /\ LET s2 == DoLookup(s, k) IN s' = s2 /\ Bury(s2)
  /\ Op([o |-> "look", k |-> k]) /\ Idle(IF k \in DOMAIN s.table THEN s.table[k] ELSE 0, FALSE) /\ UNCHANGED <<n, born>>
Release(i) ==
  /\ i \in DOMAIN s.ent /\ s.ent[i].refs > 0
  /\ LET s2 == DoRelease(s, i) IN s' = s2 /\ Bury(s2)
  /\ Op([o |-> "rel", i |-> i]) /\ Idle(i, s.ent[i].refs = 1) /\ UNCHANGED <<n, born>>
Erase(k) ==
  /\ LET s2 == DoErase(s, k) IN s' = s2 /\ Bury(s2)
  /\ Op([o |-> "erase", k |-> k]) /\ Idle(0, FALSE) /\ UNCHANGED <<n, born>>
Prune ==
  /\ LET s2 == DoPrune(s) IN s' = s2 /\ Bury(s2)
  /\ Op([o |-> "prune"]) /\ Idle(0, FALSE) /\ UNCHANGED <<n, born>>
DestroyCache ==      \* then a new, empty cache
  /\ \A i \in DOMAIN s.ent : s.ent[i].refs = 0
  /\ n = MaxIns /\ DOMAIN s.ent # {}
  /\ LET s2 == DoDestroy(s) IN s' = s2 /\ Bury(s2)
  /\ Op([o |-> "destroy"]) /\ Idle(0, FALSE) /\ UNCHANGED <<n, born>>

Next == \/ \E k \in Keys, c \in Charges : Insert(k, c)
        \/ \E k \in Keys : Lookup(k) \/ Erase(k)
        \/ \E i \in 1..MaxIns : Release(i)
        \/ Prune \/ DestroyCache
NoLast == <<s, n, born, died, idle>>
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Consistent == TableOK(s) /\ LruOK(s) /\ UsageOK(s) /\ LifeOK(s)
(* C02: every inserted entry is either alive or destroyed exactly once *)
ExactlyOnce == \A i \in DOMAIN born :
   (i \in DOMAIN s.ent) # (i \in DOMAIN died /\ died[i] = 1)
NeverTwice == \A i \in DOMAIN died : died[i] \in {0, 1}
(* C01: the table maps a key only to its latest insertion *)
Latest == \A k \in DOMAIN s.table : \A i \in DOMAIN born :
   (born[i].key = k) => i <= s.table[k]
NothingCachedIfZero == Cap = 0 => DOMAIN s.table = {}
(* C03: after an insertion the partition fits, or nothing idle remains *)
IsIns == n' = n + 1
EvictEnough == [][IsIns => \A sh \in 0..1 :
   s'.usage[sh] > Cap => (s'.lru[sh] = <<>> \/ ~\E k \in Keys : ShardOf(k) = sh /\ born'[n'].key = k)]_vars
(* eviction: only on insertion, only idle entries, oldest first, only as many as needed *)
Evicted == {i \in Mapped(s) : i \notin DOMAIN s'.ent}
EvictRight == [][IsIns =>
   LET k == born'[n'].key
       old == IF k \in DOMAIN s.table THEN {s.table[k]} ELSE {}
       sh == ShardOf(k)
       ev == Evicted \ old
       q == SelectSeq(idle, LAMBDA i : i \notin old /\ s.ent[i].shard = sh /\ s.ent[i].mapped)
   IN /\ \E m \in 0..Len(q) : ev = {q[j] : j \in 1..m}
      /\ \A i \in ev : s.ent[i].refs = 0
      /\ ev # {} => \* the last one evicted was still necessary
           \E i \in ev : s'.usage[sh] + s.ent[i].charge > Cap]_vars
NoOtherEviction == [][ ~IsIns => \A i \in Mapped(s) : (i \notin DOMAIN s'.ent) =>
   \/ \E k \in DOMAIN s.table : s.table[k] = i /\ k \notin DOMAIN s'.table ]_vars
(* handles pin: an entry with outstanding handles is never destroyed by others *)
Pinned == [][\A i \in DOMAIN s.ent : s.ent[i].refs > 1 => i \in DOMAIN s'.ent]_vars
(* --------- wrong variants: each must violate one of the properties ------- *)
RefStays(x, id) == [x EXCEPT !.ent[id].refs = @ + 1]
UnrefDrops(x, id) == IF x.ent[id].refs = 1 THEN Destroy([x EXCEPT !.ent[id].refs = 0], id) ELSE [x EXCEPT !.ent[id].refs = @ - 1]
EraseKeepsCharge(x, id) ==
  LET e == x.ent[id]
      x1 == [x EXCEPT !.table = Without(@, e.key), !.ent[id].mapped = FALSE,
                      !.lru[e.shard] = IF e.refs = 0 THEN SeqWithout(@, id) ELSE @]
  IN IF e.refs = 0 THEN Destroy(x1, id) ELSE x1
EraseDestroys(x, id) ==
  LET e == x.ent[id] IN
  Destroy([x EXCEPT !.table = Without(@, e.key), !.usage[e.shard] = @ - e.charge, !.lru[e.shard] = SeqWithout(@, id)], id)
EraseLeaks(x, id) ==
  LET e == x.ent[id] IN
  [x EXCEPT !.table = Without(@, e.key), !.usage[e.shard] = @ - e.charge, !.lru[e.shard] = SeqWithout(@, id), !.ent[id].mapped = FALSE]
RECURSIVE EvictNewest(_, _, _), EvictAll(_, _, _), EvictLess(_, _, _)
EvictNewest(x, sh, cap) == IF x.usage[sh] > cap /\ x.lru[sh] # <<>>
  THEN EvictNewest(FinishErase(x, x.lru[sh][Len(x.lru[sh])]), sh, cap) ELSE x
EvictAll(x, sh, cap) == IF x.lru[sh] # <<>> THEN EvictAll(FinishErase(x, Head(x.lru[sh])), sh, cap) ELSE x
EvictLess(x, sh, cap) == IF x.usage[sh] > cap + 1 /\ x.lru[sh] # <<>> THEN EvictLess(FinishErase(x, Head(x.lru[sh])), sh, cap) ELSE x
UnrefFront(x, id) == LET e == x.ent[id]  y == [x EXCEPT !.ent[id].refs = @ - 1] IN
  IF e.refs > 1 THEN y ELSE IF e.mapped THEN [y EXCEPT !.lru[e.shard] = <<id>> \o @] ELSE Destroy(y, id)
InsertBeside(x0, cap, id, key, sh, charge) ==
  LET x == Begin(x0) IN
  Evict([x EXCEPT !.ent = With(@, id, Entry(key, sh, charge, TRUE)), !.table = With(@, key, id), !.usage[sh] = @ + charge], sh, cap)
=============================================================================
