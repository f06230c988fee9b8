--------------------------------- MODULE HB ---------------------------------
(***************************************************************************)
(* Happens-before of the C++ memory model, over recorded executions of the *)
(* real code under the controlled scheduler: every memory access of the    *)
(* code under test that touches memory used by two threads, every atomic   *)
(* operation with its memory order and the store it read from, and every   *)
(* mutex, thread and publication event.  A log is accepted iff it contains *)
(* no data race: of two conflicting accesses not both atomic, one happens  *)
(* before the other.  (Freeing is a write.)                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l,
          n,      \* threads
          vc,     \* thread -> its vector clock
          acq,    \* thread -> clocks of stores read without acquire (for fences)
          rel,    \* thread -> clock at its last release fence
          mu,     \* mutex -> [vc, owner, readers]
          ch,     \* publication channel -> clock
          st,     \* store -> clock it releases
          cell    \* memory cell -> clocks of its accesses
tvars == <<l, n, vc, acq, rel, mu, ch, st, cell>>
Th == 1..n
Zero == [i \in 1..n |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [i \in DOMAIN a |-> Max(a[i], b[i])]
Leq(a, b) == \A i \in DOMAIN a : a[i] <= b[i]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
NoFcn == [x \in {} |-> 0]
Acquires(o) == o \in {"con", "acq", "ar", "sc"}
Releases(o) == o \in {"rel", "ar", "sc"}
Tick(v, t) == [v EXCEPT ![t][t] = @ + 1]

Clean == [w |-> Zero, r |-> Zero, aw |-> Zero, ar |-> Zero]
At(c) == Get(cell, c, Clean)
\* the accesses a plain or atomic read or write conflicts with
Conflicts(k, kind) ==
  CASE kind = "R" -> <<k.w, k.aw>>
    [] kind = "W" -> <<k.w, k.aw, k.r, k.ar>>
    [] kind = "AR" -> <<k.w>>
    [] kind = "AW" -> <<k.w, k.r>>
Field(kind) == CASE kind = "R" -> "r" [] kind = "W" -> "w" [] kind = "AR" -> "ar" [] kind = "AW" -> "aw"
Ordered(t, cs, kind) ==
  \A i \in 1..Len(cs) : \A j \in 1..Len(Conflicts(At(cs[i]), kind)) : Leq(Conflicts(At(cs[i]), kind)[j], vc[t])
Marked(t, cs, kind) ==
  [c \in {cs[i] : i \in 1..Len(cs)} |-> [At(c) EXCEPT ![Field(kind)][t] = vc[t][t]]] @@ cell

Plain(e, kind) ==
  LET t == e.t + 1 IN
  /\ Ordered(t, e.c, kind) /\ cell' = Marked(t, e.c, kind)
  /\ UNCHANGED <<n, vc, acq, rel, mu, ch, st>>
\* what thread t knows after reading store s with order o
Know(t, s, o) == IF Acquires(o) THEN Join(vc[t], Get(st, s, Zero)) ELSE vc[t]
Pend(t, s, o) == IF Acquires(o) THEN acq ELSE [acq EXCEPT ![t] = Join(@, Get(st, s, Zero))]
\* what a store by a thread with clock v releases
Out(t, v, o) == IF Releases(o) THEN v ELSE rel[t]
ALoad(e) ==
  LET t == e.t + 1 IN
  /\ Ordered(t, e.c, "AR") /\ cell' = Marked(t, e.c, "AR")
  /\ vc' = Tick([vc EXCEPT ![t] = Know(t, e.s, e.o)], t) /\ acq' = Pend(t, e.s, e.o)
  /\ UNCHANGED <<n, rel, mu, ch, st>>
AStore(e) ==
  LET t == e.t + 1 IN
  /\ Ordered(t, e.c, "AW") /\ cell' = Marked(t, e.c, "AW")
  /\ st' = Put(st, e.s, Out(t, vc[t], e.o)) /\ vc' = Tick(vc, t)
  /\ UNCHANGED <<n, acq, rel, mu, ch>>
\* a read-modify-write reads store s-1 and continues its release sequence
AUpd(e) ==
  LET t == e.t + 1  v == Know(t, e.s - 1, e.o) IN
  /\ Ordered(t, e.c, "AW") /\ cell' = Marked(t, e.c, "AW")
  /\ st' = Put(st, e.s, Join(Get(st, e.s - 1, Zero), Out(t, v, e.o)))
  /\ vc' = Tick([vc EXCEPT ![t] = v], t) /\ acq' = Pend(t, e.s - 1, e.o)
  /\ UNCHANGED <<n, rel, mu, ch>>
Fence(e) ==
  LET t == e.t + 1
      v == IF Acquires(e.o) THEN Join(vc[t], acq[t]) ELSE vc[t] IN
  /\ rel' = (IF Releases(e.o) THEN [rel EXCEPT ![t] = v] ELSE rel)
  /\ vc' = Tick([vc EXCEPT ![t] = v], t)
  /\ UNCHANGED <<n, acq, mu, ch, st, cell>>
Mu(m) == Get(mu, m, [vc |-> Zero, owner |-> 0, readers |-> 0])
Lock(e) ==
  LET t == e.t + 1 IN
  /\ Mu(e.m).owner = 0 /\ Mu(e.m).readers = 0
  /\ vc' = [vc EXCEPT ![t] = Join(@, Mu(e.m).vc)]
  /\ mu' = Put(mu, e.m, [Mu(e.m) EXCEPT !.owner = t])
  /\ UNCHANGED <<n, acq, rel, ch, st, cell>>
Unlock(e) ==
  LET t == e.t + 1 IN
  /\ Mu(e.m).owner = t
  /\ mu' = Put(mu, e.m, [vc |-> vc[t], owner |-> 0, readers |-> 0])
  /\ vc' = Tick(vc, t)
  /\ UNCHANGED <<n, acq, rel, ch, st, cell>>
RdLock(e) ==
  LET t == e.t + 1 IN
  /\ Mu(e.m).owner = 0
  /\ vc' = [vc EXCEPT ![t] = Join(@, Mu(e.m).vc)]
  /\ mu' = Put(mu, e.m, [Mu(e.m) EXCEPT !.readers = @ + 1])
  /\ UNCHANGED <<n, acq, rel, ch, st, cell>>
RdUnlock(e) ==
  LET t == e.t + 1 IN
  /\ Mu(e.m).readers > 0
  /\ mu' = Put(mu, e.m, [Mu(e.m) EXCEPT !.readers = @ - 1, !.vc = Join(@, vc[t])])
  /\ vc' = Tick(vc, t)
  /\ UNCHANGED <<n, acq, rel, ch, st, cell>>
Spawn(e) ==
  /\ vc' = Tick([vc EXCEPT ![e.u + 1] = [vc[e.t + 1] EXCEPT ![e.u + 1] = 1]], e.t + 1)
  /\ UNCHANGED <<n, acq, rel, mu, ch, st, cell>>
JoinT(e) ==
  /\ vc' = [vc EXCEPT ![e.t + 1] = Join(@, vc[e.u + 1])]
  /\ UNCHANGED <<n, acq, rel, mu, ch, st, cell>>
Publish(e) ==
  /\ ch' = Put(ch, e.m, Join(Get(ch, e.m, Zero), vc[e.t + 1])) /\ vc' = Tick(vc, e.t + 1)
  /\ UNCHANGED <<n, acq, rel, mu, st, cell>>
Observe(e) ==
  /\ vc' = Tick([vc EXCEPT ![e.t + 1] = Join(@, Get(ch, e.m, Zero))], e.t + 1)
  /\ UNCHANGED <<n, acq, rel, mu, ch, st, cell>>
Reset(e) ==
  /\ n' = e.n
  /\ vc' = [t \in 1..e.n |-> [i \in 1..e.n |-> IF i = t THEN 1 ELSE 0]]
  /\ acq' = [t \in 1..e.n |-> [i \in 1..e.n |-> 0]] /\ rel' = acq'
  /\ mu' = NoFcn /\ ch' = NoFcn /\ st' = NoFcn /\ cell' = NoFcn
Step(e) ==
  CASE e.e = "R" -> Plain(e, "R") [] e.e = "W" -> Plain(e, "W")
    [] e.e = "AL" -> ALoad(e) [] e.e = "AS" -> AStore(e) [] e.e = "AU" -> AUpd(e)
    [] e.e = "F" -> Fence(e)
    [] e.e = "Lk" -> Lock(e) [] e.e = "Ul" -> Unlock(e)
    [] e.e = "RdLk" -> RdLock(e) [] e.e = "RdUl" -> RdUnlock(e)
    [] e.e = "Sp" -> Spawn(e) [] e.e = "Jn" -> JoinT(e)
    [] e.e = "Pub" -> Publish(e) [] e.e = "Obs" -> Observe(e)
    [] e.e = "Reset" -> Reset(e)
    [] OTHER -> FALSE
TraceInit == /\ l = 1 /\ n = 1 /\ vc = <<<<1>>>> /\ acq = <<<<0>>>> /\ rel = <<<<0>>>>
             /\ mu = NoFcn /\ ch = NoFcn /\ st = NoFcn /\ cell = NoFcn
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
