----------------------------- MODULE OrderedSet -----------------------------
(* The abstract ordered set a skip list implements, as the sorted sequence  *)
(* of its keys; keys are their ranks (natural numbers) in the list's order, *)
(* -1 is "no position".                                                     *)
EXTENDS Integers, Sequences
NoPos == -1
\* number of elements of q smaller than t
RECURSIVE Bin(_, _, _, _)
Bin(q, t, lo, hi) == IF lo = hi THEN lo
   ELSE LET m == (lo + hi) \div 2 IN IF q[m+1] < t THEN Bin(q, t, m + 1, hi) ELSE Bin(q, t, lo, m)
Below(q, t) == Bin(q, t, 0, Len(q))
At(q, i) == IF i >= 1 /\ i <= Len(q) THEN q[i] ELSE NoPos
SeekIn(q, t) == At(q, Below(q, t) + 1)
NextIn(q, p) == At(q, Below(q, p + 1) + 1)
PrevIn(q, p) == At(q, Below(q, p))
FirstIn(q) == At(q, 1)
LastIn(q) == At(q, Len(q))
HasIn(q, k) == SeekIn(q, k) = k
InsIn(q, k) == LET b == Below(q, k) IN SubSeq(q, 1, b) \o <<k>> \o SubSeq(q, b + 1, Len(q))
\* union of two sorted sequences without common elements
RECURSIVE Merge(_, _)
Merge(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF a[Len(a)] < b[1] THEN a \o b
  ELSE IF b[Len(b)] < a[1] THEN b \o a
  ELSE IF Len(a) = 1 THEN InsIn(b, a[1])
  ELSE LET m == Len(a) \div 2
           n == Below(b, a[m+1])
       IN Merge(SubSeq(a, 1, m), SubSeq(b, 1, n)) \o Merge(SubSeq(a, m + 1, Len(a)), SubSeq(b, n + 1, Len(b)))
\* ascending sequence of the arithmetic progression a, a+d, ... (n terms)
Prog(a, d, n) == IF d >= 0 THEN [i \in 1..n |-> a + (i-1) * d] ELSE [i \in 1..n |-> a + (n-i) * d]
RECURSIVE Ascend(_, _)
Ascend(runs, i) == IF i > Len(runs) THEN <<>> ELSE Prog(runs[i][1], runs[i][2], runs[i][3]) \o Ascend(runs, i + 1)
RECURSIVE Descend(_, _)
Descend(runs, i) == IF i = 0 THEN <<>> ELSE Prog(runs[i][1], runs[i][2], runs[i][3]) \o Descend(runs, i - 1)
=============================================================================
