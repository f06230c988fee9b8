---------------------------- MODULE CacheConcMC ----------------------------
(***************************************************************************)
(* Threads calling the cache.  Every operation of a partition is a lock, a *)
(* read of the partition's state, a write of the new state and an unlock;  *)
(* whole-cache operations visit the partitions one after the other.  With  *)
(* one lock per partition (Locking = "shard") every operation is atomic;   *)
(* without, or with a lock that does not cover reading and writing         *)
(* ("split"), updates are lost and the invariants fail.                    *)
(***************************************************************************)
EXTENDS LRUCache, TLC
CONSTANTS Keys, Cap, Threads, MaxIns, MaxOps, Locking
VARIABLES s,      \* shared cache state
          lock,   \* partition -> holding thread or 0
          th,     \* thread -> [pc, op, snap, todo, own (handles held), ops, sum]
          n,      \* ids used
          died,   \* id -> number of deleter calls
          ctr, got \* id counter and the ids handed out
vars == <<s, lock, th, n, died, ctr, got>>
Shards == {0, 1}
ShardOf(k) == IF k = "z" THEN 1 ELSE 0
Idle == [pc |-> "idle", op |-> [o |-> "none"], snap |-> EmptyCache, todo |-> {}, own |-> <<>>, ops |-> 0, sum |-> 0, c |-> 0]
Init == /\ s = EmptyCache /\ lock = [x \in 0..2 |-> 0] /\ th = [t \in Threads |-> Idle]
        /\ n = 0 /\ died = [i \in 1..MaxIns |-> 0] /\ ctr = 0 /\ got = <<>>
Start(t, op, todo) == /\ th[t].pc = "idle" /\ th[t].ops < MaxOps
                      /\ th' = [th EXCEPT ![t].pc = "acq", ![t].op = op, ![t].todo = todo, ![t].ops = @ + 1, ![t].sum = 0]
                      /\ UNCHANGED <<s, lock, died, ctr, got>>
Call(t) ==
  \/ \E k \in Keys : n < MaxIns /\ Start(t, [o |-> "ins", k |-> k, id |-> n + 1], {ShardOf(k)}) /\ n' = n + 1
  \/ \E k \in Keys : Start(t, [o |-> "look", k |-> k], {ShardOf(k)}) /\ UNCHANGED n
  \/ \E k \in Keys : Start(t, [o |-> "erase", k |-> k], {ShardOf(k)}) /\ UNCHANGED n
  \/ th[t].own # <<>> /\ UNCHANGED n
     /\ Start(t, [o |-> "rel", id |-> Head(th[t].own)], {s.ent[Head(th[t].own)].shard})
  \/ Start(t, [o |-> "prune"], Shards) /\ UNCHANGED n
  \/ Start(t, [o |-> "total"], Shards) /\ UNCHANGED n
  \/ Start(t, [o |-> "id"], {2}) /\ UNCHANGED n        \* 2: the id counter and its lock
Cur(t) == CHOOSE x \in th[t].todo : \A y \in th[t].todo : x <= y
Acquire(t) ==
  /\ th[t].pc = "acq" /\ th[t].todo # {}
  /\ IF Locking = "none" THEN UNCHANGED lock ELSE lock[Cur(t)] = 0 /\ lock' = [lock EXCEPT ![Cur(t)] = t]
  /\ th' = [th EXCEPT ![t].pc = "read"] /\ UNCHANGED <<s, n, died, ctr, got>>
ReadState(t) ==
  /\ th[t].pc = "read" /\ th' = [th EXCEPT ![t].pc = "write", ![t].snap = s, ![t].c = ctr]
  /\ lock' = (IF Locking = "split" THEN [lock EXCEPT ![Cur(t)] = 0] ELSE lock)
  /\ UNCHANGED <<s, n, died, ctr, got>>
Result(t) == LET op == th[t].op  c == th[t].snap IN
  CASE op.o = "ins" -> DoInsert(c, Cap, op.id, op.k, ShardOf(op.k), 1)
    [] op.o = "look" -> DoLookup(c, op.k)
    [] op.o = "erase" -> DoErase(c, op.k)
    [] op.o = "rel" -> DoRelease(c, op.id)
    [] op.o = "prune" -> PruneShard(Begin(c), Cur(t))
    [] op.o = "total" -> Begin(c)
\* write back one partition, leaving the others as they now are
Merge(c, r, x) ==
  LET other == {i \in DOMAIN c.ent : c.ent[i].shard # x}
      mine == {i \in DOMAIN r.ent : r.ent[i].shard = x}
      keyo == {k \in DOMAIN c.table : ShardOf(k) # x}
      keym == {k \in DOMAIN r.table : ShardOf(k) = x}
  IN [ent |-> [i \in other \cup mine |-> IF i \in mine THEN r.ent[i] ELSE c.ent[i]],
      table |-> [k \in keyo \cup keym |-> IF k \in keym THEN r.table[k] ELSE c.table[k]],
      lru |-> [c.lru EXCEPT ![x] = r.lru[x]], usage |-> [c.usage EXCEPT ![x] = r.usage[x]], dead |-> {}]
Found(t) == IF th[t].op.o = "look" THEN LookupResult(th[t].snap, th[t].op.k) ELSE IF th[t].op.o = "ins" THEN th[t].op.id ELSE 0
WriteId(t) ==
  /\ th[t].pc = "write" /\ th[t].op.o = "id"
  /\ ctr' = th[t].c + 1 /\ got' = Append(got, ctr')
  /\ th' = [th EXCEPT ![t].pc = "acq", ![t].todo = {}, ![t].c = 0]
  /\ lock' = (IF lock[2] = t THEN [lock EXCEPT ![2] = 0] ELSE lock)
  /\ UNCHANGED <<s, n, died>>
WriteState(t) ==
  /\ th[t].pc = "write" /\ th[t].op.o # "id"
  /\ LET r == Result(t)  x == Cur(t) IN
       /\ s' = Merge(s, r, x)
       /\ died' = [i \in 1..MaxIns |-> died[i] + (IF i \in r.dead THEN 1 ELSE 0)]
       /\ th' = [th EXCEPT ![t].pc = "acq", ![t].todo = @ \ {x}, ![t].sum = @ + r.usage[x],
                           ![t].own = IF Found(t) # 0 THEN Append(@, Found(t)) ELSE IF th[t].op.o = "rel" THEN Tail(@) ELSE @]
       /\ lock' = (IF lock[x] = t THEN [lock EXCEPT ![x] = 0] ELSE lock)
  /\ UNCHANGED <<n, ctr, got>>
Return(t) == /\ th[t].pc = "acq" /\ th[t].todo = {}
             /\ th' = [th EXCEPT ![t].pc = "idle", ![t].snap = EmptyCache, ![t].op = Idle.op, ![t].c = 0] /\ UNCHANGED <<s, lock, n, died, ctr, got>>
Next == \E t \in Threads : Call(t) \/ Acquire(t) \/ ReadState(t) \/ WriteState(t) \/ WriteId(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
Consistent == TableOK(s) /\ LruOK(s) /\ UsageOK(s) /\ LifeOK(s)
NeverTwice == \A i \in 1..MaxIns : died[i] <= 1
\* handles are honoured: what a thread holds is alive and counted
Held(i) == Cardinality({<<t, j>> \in Threads \X (1..MaxOps) : j <= Len(th[t].own) /\ th[t].own[j] = i})
Counted == \A i \in 1..MaxIns : Held(i) > 0 => i \in DOMAIN s.ent /\ s.ent[i].refs = Held(i)
Distinct == \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
\* some thread can always go on, until all have done their operations
Progress == (\A t \in Threads : th[t].pc # "idle" => ~ENABLED (Acquire(t) \/ ReadState(t) \/ WriteState(t) \/ WriteId(t) \/ Return(t)))
            => \A t \in Threads : th[t].pc = "idle"
=============================================================================
