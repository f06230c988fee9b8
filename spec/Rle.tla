-------------------------------- MODULE Rle --------------------------------
(* Byte strings as normalized run-length sequences <<<<value, count>>, ...>> *)
EXTENDS Integers, Sequences
RECURSIVE RLen(_, _)
RLen(q, i) == IF i > Len(q) THEN 0 ELSE q[i][2] + RLen(q, i + 1)
Size(q) == RLen(q, 1)
Cat(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF a[Len(a)][1] = b[1][1]
       THEN SubSeq(a, 1, Len(a) - 1) \o <<<<b[1][1], a[Len(a)][2] + b[1][2]>>>> \o Tail(b)
       ELSE a \o b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE DropFrom(_, _, _)
DropFrom(q, i, n) == IF i > Len(q) THEN <<>>
   ELSE IF n = 0 THEN SubSeq(q, i, Len(q))
   ELSE IF q[i][2] <= n THEN DropFrom(q, i + 1, n - q[i][2])
   ELSE <<<<q[i][1], q[i][2] - n>>>> \o SubSeq(q, i + 1, Len(q))
Drop(q, n) == DropFrom(q, 1, n)
\* first index i with at least n bytes in q[1..i], and what is taken of q[i]
RECURSIVE TakeTo(_, _, _)
TakeTo(q, i, n) == IF n = 0 \/ i > Len(q) THEN SubSeq(q, 1, i - 1)
   ELSE IF q[i][2] >= n THEN Append(SubSeq(q, 1, i - 1), <<q[i][1], n>>)
   ELSE TakeTo(q, i + 1, n - q[i][2])
Take(q, n) == TakeTo(q, 1, n)
\* bytes [off, off+n) clipped at the end
Slice(q, off, n) == Take(Drop(q, off), n)
IsPrefix(p, q) == Size(p) <= Size(q) /\ Take(q, Size(p)) = p
=============================================================================
