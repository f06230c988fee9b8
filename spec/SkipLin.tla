------------------------------- MODULE SkipLin -------------------------------
(***************************************************************************)
(* Decides recorded executions of the real skip list with one writer and   *)
(* unlocked readers.  The set only grows, in the order of the insertions,  *)
(* so its states are the prefixes of that order.  A read must be exact for *)
(* one of them: with sequentially consistent memory for a state of a       *)
(* moment during the read; with weak memory (sc = FALSE) for a state not   *)
(* older than what the reader knows already, by what it has seen itself    *)
(* and by external synchronization with the writer.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, sc,
          order,   \* keys in order of insertion (the last one perhaps not complete)
          done,    \* number of completed insertions
          pub,     \* the number completed when the writer last published
          lo,      \* reader -> number of insertions it knows
          at,      \* reader, iterator -> position (key or -1)
          pend     \* reader -> its call
tvars == <<l, sc, order, done, pub, lo, at, pend>>
Rd == 1..4
It == 0..1
NoCall == [o |-> "none"]
IsIn(m, k) == \E j \in 1..m : order[j] = k
AtLeast(m, t, r) == IF r = -1 THEN \A j \in 1..m : order[j] < t
                    ELSE r >= t /\ IsIn(m, r) /\ \A j \in 1..m : ~(t <= order[j] /\ order[j] < r)
Under(m, t, r) == IF r = -1 THEN \A j \in 1..m : order[j] >= t
                  ELSE r < t /\ IsIn(m, r) /\ \A j \in 1..m : ~(r < order[j] /\ order[j] < t)
Top(m, r) == IF r = -1 THEN m = 0 ELSE IsIn(m, r) /\ \A j \in 1..m : order[j] <= r
Right(m, p, e) ==
  CASE p.o = "has" -> e.r = (IF IsIn(m, p.k) THEN 1 ELSE 0)
    [] p.o = "seek" -> AtLeast(m, p.k, e.r)
    [] p.o = "first" -> AtLeast(m, -1, e.r)
    [] p.o = "last" -> Top(m, e.r)
    [] p.o = "next" -> AtLeast(m, at[e.t][p.i] + 1, e.r)
    [] p.o = "prev" -> Under(m, at[e.t][p.i], e.r)
    [] p.o = "mem" -> TRUE
Max(a, b) == IF a > b THEN a ELSE b
\* how many insertions a reader knows after seeing key k
Upto(k) == IF \E j \in 1..Len(order) : order[j] = k THEN CHOOSE j \in 1..Len(order) : order[j] = k ELSE 0
Seen(p, e) == IF p.o = "has" THEN (IF e.r = 1 THEN Upto(p.k) ELSE 0) ELSE IF p.o = "mem" THEN 0 ELSE Upto(e.r)
Floor(t) == IF sc THEN done ELSE lo[t]
Step(e) ==
  CASE e.e = "Reset" ->
         /\ sc' = e.sc /\ order' = e.pre /\ done' = Len(e.pre) /\ pub' = Len(e.pre)
         /\ lo' = [t \in Rd |-> Len(e.pre)] /\ at' = [t \in Rd |-> [i \in It |-> -1]] /\ pend' = [t \in Rd |-> NoCall]
    [] e.e = "InsB" -> /\ done = Len(order) /\ order' = Append(order, e.k) /\ UNCHANGED <<sc, done, pub, lo, at, pend>>
    [] e.e = "InsE" -> /\ done' = Len(order) /\ UNCHANGED <<sc, order, pub, lo, at, pend>>
    [] e.e = "Pub" -> /\ pub' = done /\ UNCHANGED <<sc, order, done, lo, at, pend>>
    [] e.e = "Obs" -> /\ lo' = [lo EXCEPT ![e.t] = Max(@, pub)] /\ UNCHANGED <<sc, order, done, pub, at, pend>>
    \* all threads joined: everything is known
    [] e.e = "Joined" -> /\ lo' = [t \in Rd |-> done] /\ UNCHANGED <<sc, order, done, pub, at, pend>>
    \* a complete iteration: every key once, in order
    [] e.e = "All" -> /\ Len(e.k) = Len(order) /\ \A j \in 1..Len(order) - 1 : e.k[j] < e.k[j + 1]
                      /\ {e.k[j] : j \in 1..Len(e.k)} = {order[j] : j \in 1..Len(order)}
                      /\ UNCHANGED <<sc, order, done, pub, lo, at, pend>>
    [] e.e = "Call" ->
         /\ pend[e.t] = NoCall
         /\ pend' = [pend EXCEPT ![e.t] = [from |-> Floor(e.t)] @@ e] /\ UNCHANGED <<sc, order, done, pub, lo, at>>
    [] e.e = "Ret" ->
         LET p == pend[e.t] IN
         /\ p # NoCall
         /\ \E m \in p.from..Len(order) : Right(m, p, e)
         /\ lo' = [lo EXCEPT ![e.t] = Max(@, Seen(p, e))]
         /\ at' = (IF p.o \in {"has", "mem"} THEN at ELSE [at EXCEPT ![e.t][p.i] = e.r])
         /\ pend' = [pend EXCEPT ![e.t] = NoCall] /\ UNCHANGED <<sc, order, done, pub>>
    [] OTHER -> FALSE
TraceInit == /\ l = 1 /\ sc = TRUE /\ order = <<>> /\ done = 0 /\ pub = 0
             /\ lo = [t \in Rd |-> 0] /\ at = [t \in Rd |-> [i \in It |-> -1]] /\ pend = [t \in Rd |-> NoCall]
TraceNext == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
ASSUME TLCSet(1, 1)
Track == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
Accepted == PrintT(<<"VPTRACE", TLCGet(1), Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
