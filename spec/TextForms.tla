------------------------------ MODULE TextForms ------------------------------
(* util/logging: numbers are big-endian digit sequences in some base.         *)
EXTENDS Integers, Sequences
\* one long division of the digits q (base b) by d: [quot, rem]
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(q, i, r, b, d) == IF i > Len(q) THEN [quot |-> <<>>, rem |-> r]
   ELSE LET c == r * b + q[i]
            x == DivFrom(q, i + 1, c % d, b, d)
        IN [quot |-> <<c \div d>> \o x.quot, rem |-> x.rem]
RECURSIVE Strip(_)
Strip(q) == IF Len(q) > 0 /\ q[1] = 0 THEN Strip(Tail(q)) ELSE q
\* digits of q (base b) in base d; zero is <<0>>
RECURSIVE Conv(_, _, _)
Conv(q, b, d) == LET s == Strip(q) IN
   IF s = <<>> THEN <<>> ELSE LET x == DivFrom(s, 1, 0, b, d) IN Conv(x.quot, b, d) \o <<x.rem>>
InBase(q, b, d) == LET c == Conv(q, b, d) IN IF c = <<>> THEN <<0>> ELSE c
RECURSIVE Rev(_)
Rev(q) == IF q = <<>> THEN <<>> ELSE Append(Rev(Tail(q)), q[1])
\* the leading digits (base d, character code `zero` for 0) of a byte string
RECURSIVE LeadLen(_, _, _, _)
LeadLen(in, i, zero, d) == IF i > Len(in) \/ in[i] < zero \/ in[i] >= zero + d THEN i - 1
                           ELSE LeadLen(in, i + 1, zero, d)
Lead(in, zero, d) == SubSeq(in, 1, LeadLen(in, 1, zero, d))
\* numeric comparison of digit sequences without leading zeros
RECURSIVE LexLE(_, _, _)
LexLE(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLE(a, b, i + 1)
NumLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b, 1))
\* escaping
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Esc1(c) == IF c >= 32 /\ c <= 126 THEN <<c>> ELSE <<92, 120, HexDigit(c \div 16), HexDigit(c % 16)>>
RECURSIVE Escape(_)
Escape(q) == IF q = <<>> THEN <<>> ELSE Esc1(q[1]) \o Escape(Tail(q))
=============================================================================
