------------------------------- MODULE Coding -------------------------------
(* util/coding: numbers are sequences of bits, least significant first.     *)
EXTENDS Integers, Sequences

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)

\* bits of a little-endian digit sequence, GB bits per digit, w bits in all
BitsOf(d, GB, w) == [i \in 1..w |-> (d[((i-1) \div GB) + 1] \div P2((i-1) % GB)) % 2]
Bit(v, i) == IF i <= Len(v) THEN v[i] ELSE 0
RECURSIVE TopBit(_, _)
TopBit(v, i) == IF i = 0 THEN 0 ELSE IF v[i] = 1 THEN i ELSE TopBit(v, i - 1)
RECURSIVE SumBits(_, _, _)
SumBits(v, from, n) == IF n = 0 THEN 0 ELSE Bit(v, from) + 2 * SumBits(v, from + 1, n - 1)

\* fixed width: w bits as w/8 bytes, little endian
Fixed(v, GB) == [i \in 1..(Len(v) \div GB) |-> SumBits(v, (i-1) * GB + 1, GB)]

\* variable length: groups of GB bits, least significant first, minimal, the
\* continuation flag on all but the last
NumGroups(v, GB) == LET t == TopBit(v, Len(v)) IN IF t = 0 THEN 1 ELSE (t + GB - 1) \div GB
Varint(v, GB) == LET n == NumGroups(v, GB) IN
  [i \in 1..n |-> SumBits(v, (i-1) * GB + 1, GB) + IF i < n THEN P2(GB) ELSE 0]
MaxGroups(w, GB) == (w + GB - 1) \div GB

\* decoding from the front of `in`: index of the terminating group, 0 if none
RECURSIVE Term(_, _, _, _)
Term(in, i, max, GB) == IF i > Len(in) \/ i > max THEN 0
                        ELSE IF in[i] < P2(GB) THEN i ELSE Term(in, i + 1, max, GB)
VarUsed(in, w, GB) == Term(in, 1, MaxGroups(w, GB), GB)
\* decoded bits (all groups), before truncation to w
VarBits(in, n, GB) == [j \in 1..(n * GB) |-> (in[((j-1) \div GB) + 1] \div P2((j-1) % GB)) % 2]
Fits(bits, w) == \A j \in 1..Len(bits) : j > w => bits[j] = 0
Pad(bits, w) == [j \in 1..w |-> Bit(bits, j)]
Suffix(q, n) == SubSeq(q, n + 1, Len(q))
IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
=============================================================================
