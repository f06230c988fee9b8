------------------------------ MODULE ArenaMC ------------------------------
(* Design model: the code's algorithm (fallback rule, slop) at a small      *)
(* scale must satisfy the specification's conditions and the invariants.    *)
EXTENDS Arena, TLC
CONSTANTS Block, Align, Sizes, MaxAlloc
VARIABLES a, cnt, bases, badp
vars == <<a, cnt, bases, badp>>
Init == a = EmptyArena /\ cnt = 0 /\ bases = [x \in {} |-> 0] /\ badp = FALSE
Base(b) == IF b = 0 THEN 0 ELSE bases[b]
NewId == Cardinality(DOMAIN a.blocks) + 1
Fallback(n, al) == \E base \in {0} :
   LET b == NewId IN
   /\ bases' = [x \in DOMAIN bases \cup {b} |-> IF x = b THEN base ELSE bases[x]]
   /\ IF 4 * n > Block
      THEN a' = AfterOwn(a, b, n, n, 0) /\ badp' = (badp \/ ~OwnOK(a, n, n))
      ELSE a' = AfterStd(a, b, n, Block, 0) /\ badp' = (badp \/ ~StdOK(a, n, Block))
Small(n, al) ==
   /\ LET slop == IF a.cur = 0 THEN 0 ELSE SlopOf(Base(a.cur), a.top, al) IN
      /\ a.cur # 0 /\ n + slop <= Room(a)
      /\ badp' = (badp \/ ~FromCurrent(a, n, al, a.top + slop, Base(a.cur)))
      /\ a' = AfterCurrent(a, n, a.top + slop) /\ UNCHANGED bases
Big(n, al) ==
   /\ LET slop == IF a.cur = 0 THEN 0 ELSE SlopOf(Base(a.cur), a.top, al) IN
      a.cur = 0 \/ n + slop > Room(a)
   /\ Fallback(n, al)
Next == cnt < MaxAlloc /\ cnt' = cnt + 1 /\ \E n \in Sizes, al \in {1, Align} : Small(n, al) \/ Big(n, al)
Spec == Init /\ [][Next]_vars
AllDisjoint == \A b \in DOMAIN a.blocks : LET u == a.blocks[b].used IN
   /\ \A i, j \in 1..Len(u) : i < j => Disjoint(u[i], u[j])
   /\ \A i \in 1..Len(u) : u[i][1] + u[i][2] <= a.blocks[b].size
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN a.blocks[b].size + PtrSize + Sum(S \ {b})
Accounted == a.usage = Sum(DOMAIN a.blocks)
Sound == ~badp
(* --------- wrong variants: each must violate one of the invariants ------- *)
NoCount(x, b, size) == [x EXCEPT !.blocks = [y \in DOMAIN @ \cup {b} |-> IF y = b THEN [size |-> size, used |-> <<>>] ELSE @[y]], !.usage = @ + size]
TopShort(x, n, off) == [Put(x, x.cur, off, n) EXCEPT !.top = off + n - 1]
OwnCurrent(x, b, n, size, off) == [Put(Obtain(x, b, size), b, off, n) EXCEPT !.cur = b, !.top = off]
StdNotTaken(x, b, n, size, off) == [Put(Obtain(x, b, size), b, off, n) EXCEPT !.cur = b, !.top = 0, !.bs = size]
RoomMore(x) == IF x.cur = 0 THEN 0 ELSE x.blocks[x.cur].size - x.top + 1
=============================================================================
