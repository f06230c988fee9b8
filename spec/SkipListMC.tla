---------------------------- MODULE SkipListMC ----------------------------
(***************************************************************************)
(* db/skiplist.h: one writer inserting, readers running without locks, in  *)
(* a release/acquire (view based) memory model.                            *)
(*                                                                         *)
(* Every shared location holds the list of all messages (values) written   *)
(* to it; a thread's view says for each location the oldest message it may *)
(* still read.  A release store attaches the writer's view to the message, *)
(* an acquire load joins it; a relaxed store/load does neither.            *)
(* LinkOrder = "release" and Bottom = TRUE are the code; the other values  *)
(* are the two mistakes the design excludes (see SkipListMC_*.cfg): with   *)
(* them TLC must find a violation (checked as a vacuity guard).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,          \* keys 1..N
          H,          \* maximal height
          MaxOps,     \* operations of the reader
          LinkOrder,  \* "release" | "relaxed" store linking a node
          LoadOrder,  \* "acquire" | "relaxed" load of a link
          Bottom,     \* TRUE: link the lowest level first
          WeakMem     \* TRUE: views; FALSE: sequential consistency (larger N)

HEAD == 0
NIL == N + 1            \* end of list; greater than every key
GARBAGE == -1
KEY == H               \* pseudo level: the key of a node
MAXH == H + 1          \* pseudo level: max_height_
Nodes == 0..N
Levels == 0..(H-1)
Locs == (Nodes \X Levels) \cup {<<k, KEY>> : k \in 1..N} \cup {<<HEAD, MAXH>>}

VARIABLES mem,    \* loc -> sequence of [v, view]
          wv, rv, \* views of the writer and of the reader
          w,      \* writer: pc, key, height, level, prev
          r,      \* reader: pc, op, target, x, level, result
          order,  \* keys in order of their (level 0) linking
          done,   \* keys whose insertion returned
          req,    \* keys the reader must not miss any more
          sync,   \* the writer's view and done set when it last returned
          it,     \* reader's iterator position (NIL = invalid)
          nops, bad
vars == <<mem, wv, rv, w, r, order, done, req, sync, it, nops, bad>>

V0 == [loc \in Locs |-> 1]
LastTs(loc) == Len(mem[loc])
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [loc \in Locs |-> Max(a[loc], b[loc])]
Range(q) == {q[i] : i \in 1..Len(q)}

WIdle == [pc |-> "idle", k |-> 0, h |-> 0, i |-> 0, prev |-> <<>>]
RIdle == [pc |-> "idle", op |-> "none", t |-> 0, x |-> 0, lv |-> 0, res |-> NIL]

InitVal(loc) == IF loc[2] = MAXH THEN 1
                ELSE IF loc[2] = KEY THEN GARBAGE
                ELSE IF loc[1] = HEAD THEN NIL ELSE GARBAGE
Init == /\ mem = [loc \in Locs |-> <<[v |-> InitVal(loc), view |-> V0]>>]
        /\ wv = V0 /\ rv = V0 /\ w = WIdle /\ r = RIdle
        /\ order = <<>> /\ done = {} /\ req = {} /\ sync = [view |-> V0, done |-> {}]
        /\ it = NIL /\ nops = 0 /\ bad = "no"

(* ------------------------------- memory -------------------------------- *)
\* the value thread-visible now to the (only) writer: always the last one
WVal(loc) == mem[loc][LastTs(loc)].v
Store(loc, val, rel) ==
  LET v2 == [wv EXCEPT ![loc] = LastTs(loc) + 1] IN
  /\ mem' = [mem EXCEPT ![loc] = Append(@, [v |-> val, view |-> IF rel THEN v2 ELSE [V0 EXCEPT ![loc] = LastTs(loc) + 1]])]
  /\ wv' = v2
Readable(loc) == IF WeakMem THEN rv[loc]..LastTs(loc) ELSE {LastTs(loc)}
ViewAfter(loc, ts, acq) == IF acq THEN Join([rv EXCEPT ![loc] = ts], mem[loc][ts].view)
                                  ELSE [rv EXCEPT ![loc] = ts]

(* ------------------------------- writer -------------------------------- *)
RECURSIVE PrevAt(_, _, _)
PrevAt(k, lv, x) == LET nx == WVal(<<x, lv>>) IN IF nx < k THEN PrevAt(k, lv, nx) ELSE x
\* the predecessors on every level (the writer sees all of its own stores)
Prevs(k) == [lv \in Levels |-> PrevAt(k, lv, HEAD)]

LevelAt(i, h) == IF Bottom THEN i ELSE h - 1 - i

WStart(k, h) ==
  /\ w.pc = "idle" /\ k \notin done
  /\ w' = [pc |-> "maxh", k |-> k, h |-> h, i |-> 0, prev |-> Prevs(k)]
  /\ UNCHANGED <<mem, wv, rv, r, order, done, req, sync, it, nops, bad>>
WMaxh ==
  /\ w.pc = "maxh"
  /\ IF w.h > WVal(<<HEAD, MAXH>>) THEN Store(<<HEAD, MAXH>>, w.h, FALSE)
                                    ELSE UNCHANGED <<mem, wv>>
  /\ w' = [w EXCEPT !.pc = "node"]
  /\ UNCHANGED <<rv, r, order, done, req, sync, it, nops, bad>>
WNode ==
  /\ w.pc = "node" /\ Store(<<w.k, KEY>>, w.k, FALSE)
  /\ w' = [w EXCEPT !.pc = "next"]
  /\ UNCHANGED <<rv, r, order, done, req, sync, it, nops, bad>>
WNext ==
  /\ w.pc = "next"
  /\ LET lv == LevelAt(w.i, w.h) IN Store(<<w.k, lv>>, WVal(<<w.prev[lv], lv>>), FALSE)
  /\ w' = [w EXCEPT !.pc = "link"]
  /\ UNCHANGED <<rv, r, order, done, req, sync, it, nops, bad>>
WLink ==
  /\ w.pc = "link"
  /\ LET lv == LevelAt(w.i, w.h) IN
       /\ Store(<<w.prev[lv], lv>>, w.k, LinkOrder = "release")
       /\ order' = IF lv = 0 THEN Append(order, w.k) ELSE order
  /\ w' = IF w.i + 1 < w.h THEN [w EXCEPT !.pc = "next", !.i = @ + 1] ELSE [w EXCEPT !.pc = "ret"]
  /\ UNCHANGED <<rv, r, done, req, sync, it, nops, bad>>
WRet ==
  /\ w.pc = "ret"
  /\ done' = done \cup {w.k} /\ w' = WIdle
  /\ sync' = [view |-> wv, done |-> done \cup {w.k}]
  /\ UNCHANGED <<mem, wv, rv, r, order, req, it, nops, bad>>

(* ------------------------------- reader -------------------------------- *)
\* an external synchronization with the writer (a lock, a queue, ...)
RSync ==
  /\ r.pc = "idle" /\ req # sync.done /\ nops < MaxOps
  /\ rv' = Join(rv, sync.view) /\ req' = req \cup sync.done
  /\ UNCHANGED <<mem, wv, w, r, order, done, sync, it, nops, bad>>

\* search operations: "ge" = Seek/Contains, "lt" = Prev, "last" = SeekToLast
RStart(op, t) ==
  /\ r.pc = "idle" /\ nops < MaxOps
  /\ op = "lt" => it \in 1..N /\ t = it
  /\ op = "last" => t = NIL
  /\ nops' = nops + 1
  /\ \E ts \in Readable(<<HEAD, MAXH>>) :
       /\ rv' = ViewAfter(<<HEAD, MAXH>>, ts, FALSE)     \* relaxed load
       /\ r' = [pc |-> "find", op |-> op, t |-> t, x |-> HEAD,
                lv |-> mem[<<HEAD, MAXH>>][ts].v - 1, res |-> NIL]
  /\ UNCHANGED <<mem, wv, w, order, done, req, sync, it, bad>>
\* SeekToFirst and Next: one load of a level 0 link
RNext(op) ==
  /\ r.pc = "idle" /\ nops < MaxOps
  /\ op = "next" => it \in 1..N
  /\ nops' = nops + 1
  /\ LET x == IF op = "next" THEN it ELSE HEAD IN
     \E ts \in Readable(<<x, 0>>) :
       /\ rv' = ViewAfter(<<x, 0>>, ts, LoadOrder = "acquire")
       /\ r' = [pc |-> "done", op |-> "ge", t |-> x + 1, x |-> x, lv |-> 0, res |-> mem[<<x, 0>>][ts].v]
  /\ UNCHANGED <<mem, wv, w, order, done, req, sync, it, bad>>
RFind ==
  /\ r.pc = "find"
  /\ \E ts \in Readable(<<r.x, r.lv>>) :
     LET nx == mem[<<r.x, r.lv>>][ts].v
         v2 == ViewAfter(<<r.x, r.lv>>, ts, LoadOrder = "acquire")
         \* the key of nx is compared: it must be visible
         raw == nx \in 1..N /\ v2[<<nx, KEY>>] < 2
         stop == IF r.op = "ge" THEN nx >= r.t
                 ELSE IF r.op = "lt" THEN nx = NIL \/ nx >= r.t
                 ELSE nx = NIL
     IN /\ rv' = v2
        /\ bad' = IF nx = GARBAGE \/ raw THEN "uninitialized" ELSE bad
        /\ r' = IF nx = GARBAGE \/ raw THEN RIdle
                ELSE IF ~stop THEN [r EXCEPT !.x = nx]
                ELSE IF r.lv > 0 THEN [r EXCEPT !.lv = @ - 1]
                ELSE [r EXCEPT !.pc = "done",
                      !.res = IF r.op = "ge" THEN nx ELSE IF r.x = HEAD THEN NIL ELSE r.x]
  /\ UNCHANGED <<mem, wv, w, order, done, req, sync, it, nops>>
\* the answer must be that of the ordered set at some state consistent with
\* what the reader already knows (req): a prefix of the linking order
AnswerIn(S) ==
  IF r.op = "ge" THEN r.res = (LET c == {k \in S : k >= r.t} IN
                               IF c = {} THEN NIL ELSE CHOOSE k \in c : \A j \in c : k <= j)
  ELSE r.res = (LET c == {k \in S : k < r.t} IN
                IF c = {} THEN NIL ELSE CHOOSE k \in c : \A j \in c : k >= j)
Good == \E m \in 0..Len(order) :
          LET S == {order[j] : j \in 1..m} IN req \subseteq S /\ AnswerIn(S)
RDone ==
  /\ r.pc = "done"
  /\ bad' = IF r.res = GARBAGE THEN "uninitialized" ELSE IF ~Good THEN "wrong answer" ELSE bad
  /\ it' = IF r.res \in 1..N THEN r.res ELSE NIL
  /\ req' = IF r.res \in 1..N THEN req \cup {r.res} ELSE req
  /\ r' = RIdle
  /\ UNCHANGED <<mem, wv, rv, w, order, done, sync, nops>>

Next == \/ \E k \in 1..N, h \in 1..H : WStart(k, h)
        \/ WMaxh \/ WNode \/ WNext \/ WLink \/ WRet
        \/ RSync
        \/ \E t \in 1..(N+1) : RStart("ge", t)
        \/ \E t \in 1..N : RStart("lt", t)
        \/ RStart("last", NIL)
        \/ \E op \in {"first", "next"} : RNext(op)
        \/ RFind \/ RDone
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Exact == bad = "no"
\* every level is a strictly increasing chain over its nodes
RECURSIVE Chain(_, _)
Chain(x, lv) == LET nx == WVal(<<x, lv>>) IN IF nx = NIL THEN <<>> ELSE <<nx>> \o Chain(nx, lv)
Sorted(q) == \A i \in 1..(Len(q)-1) : q[i] < q[i+1]
ListOK == /\ \A lv \in Levels : Sorted(Chain(HEAD, lv))
          /\ Range(Chain(HEAD, 0)) = Range(order)
          /\ done \subseteq Range(order)
          /\ \A lv \in Levels : lv > 0 /\ Bottom => Range(Chain(HEAD, lv)) \subseteq Range(Chain(HEAD, lv - 1))
===========================================================================
