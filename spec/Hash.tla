-------------------------------- MODULE Hash --------------------------------
(* util/hash: the published definition, on words of NL limbs of LB bits,     *)
(* least significant limb first (so that no intermediate exceeds 31 bits).   *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS LB, NL, Mul, XorShift, LastShift, Base   \* Base = 2^LB; Mul as limbs
RECURSIVE XorD(_, _, _)
XorD(a, b, n) == IF n = 0 THEN 0 ELSE ((a + b) % 2) + 2 * XorD(a \div 2, b \div 2, n - 1)
Xor(x, y) == [i \in 1..NL |-> XorD(x[i], y[i], LB)]
RECURSIVE Carry(_, _, _)
Carry(q, i, c) == IF i > NL THEN <<>> ELSE <<(q[i] + c) % Base>> \o Carry(q, i + 1, (q[i] + c) \div Base)
Norm(q) == Carry(q, 1, 0)
Add(x, y) == Norm([i \in 1..NL |-> x[i] + y[i]])
RECURSIVE Conv(_, _, _, _)
Conv(x, y, i, j) == IF j > i THEN 0 ELSE x[j] * y[i + 1 - j] + Conv(x, y, i, j + 1)
Times(x, y) == Norm([i \in 1..NL |-> Conv(x, y, i, 1)])
\* shift right by a multiple of LB bits
Shr(x, bits) == LET k == bits \div LB IN [i \in 1..NL |-> IF i + k <= NL THEN x[i + k] ELSE 0]
Zero == [i \in 1..NL |-> 0]
\* a natural number as a word
RECURSIVE OfNat(_, _)
OfNat(n, i) == IF i > NL THEN <<>> ELSE <<n % Base>> \o OfNat(n \div Base, i + 1)
Word(n) == OfNat(n, 1)
\* d: the data, one limb-sized unit (byte) per element, NL units per word
Mix(h, w, shift) == LET h1 == Times(Add(h, w), Mul) IN Xor(h1, Shr(h1, shift))
Words(d, h) ==
  LET full == Len(d) \div NL
      rest == Len(d) % NL
      g == FoldLeft(LAMBDA x, i : Mix(x, SubSeq(d, NL * (i - 1) + 1, NL * i), XorShift), h, [i \in 1..full |-> i])
  IN IF rest = 0 THEN g
     ELSE Mix(g, [j \in 1..NL |-> IF j <= rest THEN d[full * NL + j] ELSE 0], LastShift)
HashOf(d, seed) == Words(d, Xor(seed, Times(Word(Len(d)), Mul)))
=============================================================================
