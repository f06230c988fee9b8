------------------------------- MODULE Arena -------------------------------
(* util/arena: a bump allocator.  State of one arena:                       *)
(*   blocks  id -> [size, used: sequence of <<offset, length>>]             *)
(*   cur     id of the block small requests are served from (0: none)       *)
(*   top     end of the last region carved from the current block           *)
(*   usage   what MemoryUsage reports                                       *)
(*   bs      size of standard blocks (0: not known yet)                     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS PtrSize      \* bytes accounted per block in addition to its memory

EmptyArena == [blocks |-> [x \in {} |-> 0], cur |-> 0, top |-> 0, usage |-> 0, bs |-> 0]
Disjoint(a, b) == a[1] + a[2] <= b[1] \/ b[1] + b[2] <= a[1]
Room(a) == IF a.cur = 0 THEN 0 ELSE a.blocks[a.cur].size - a.top
SlopOf(base, off, al) == (al - ((base + off) % al)) % al

(* A request of n bytes (aligned to al, 1 = not aligned) was answered with   *)
(* the region at `off` of block b, whose size is size and whose base address *)
(* is base modulo al; `fresh` says that b was obtained by this request.      *)
Fits(a, n, al, curbase) == a.cur # 0 /\ n + SlopOf(curbase, a.top, al) <= Room(a)
Carve(a, b, off, n) ==
  /\ off >= 0 /\ off + n <= a.blocks[b].size
  /\ \A i \in 1..Len(a.blocks[b].used) : Disjoint(a.blocks[b].used[i], <<off, n>>)
Put(a, b, off, n) == [a EXCEPT !.blocks[b].used = Append(@, <<off, n>>)]
Obtain(a, b, size) ==
  [a EXCEPT !.blocks = [x \in DOMAIN @ \cup {b} |-> IF x = b THEN [size |-> size, used |-> <<>>] ELSE @[x]],
            !.usage = @ + size + PtrSize]
\* from the current block
FromCurrent(a, n, al, off, curbase) ==
  /\ Fits(a, n, al, curbase) /\ Carve(a, a.cur, off, n)
AfterCurrent(a, n, off) == [Put(a, a.cur, off, n) EXCEPT !.top = off + n]
\* a block of its own (more than a quarter block); the current one stays
OwnOK(a, n, size) == size = n /\ (a.bs # 0 => n > a.bs \div 4)
AfterOwn(a, b, n, size, off) == Put(Obtain(a, b, size), b, off, n)
\* a new standard block
StdOK(a, n, size) == n <= size \div 4 /\ (a.bs # 0 => size = a.bs)
AfterStd(a, b, n, size, off) ==
  [Put(Obtain(a, b, size), b, off, n) EXCEPT !.cur = b, !.top = off + n, !.bs = size]
=============================================================================
