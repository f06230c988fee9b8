------------------------------- MODULE HashMC -------------------------------
(* Small words (4 limbs of 2 bits): the limb arithmetic agrees with integer  *)
(* arithmetic, for all data up to MaxLen units and all seeds.                *)
EXTENDS Hash, TLC
CONSTANTS MaxLen, Seeds
VARIABLES d, s
Init == d \in UNION {[1..n -> 0..(Base-1)] : n \in 0..MaxLen} /\ s \in Seeds
Next == UNCHANGED <<d, s>>
Spec == Init /\ [][Next]_<<d, s>>
M32 == 256                      \* 2^(LB*NL)
RECURSIVE V(_, _)
V(w, i) == IF i > Len(w) THEN 0 ELSE w[i] + Base * V(w, i + 1)
MulV == V(Mul, 1)
RECURSIVE XorN(_, _, _)
XorN(a, b, n) == IF n = 0 THEN 0 ELSE ((a + b) % 2) + 2 * XorN(a \div 2, b \div 2, n - 1)
RECURSIVE Ref(_, _)
Ref(q, h) ==
  IF Len(q) >= NL
  THEN LET h1 == ((h + V(SubSeq(q, 1, NL), 1)) * MulV) % M32
       IN Ref(SubSeq(q, NL + 1, Len(q)), XorN(h1, h1 \div 16, 8))
  ELSE IF q = <<>> THEN h
  ELSE LET h1 == ((h + V(q, 1)) * MulV) % M32 IN XorN(h1, h1 \div 64, 8)
Agree == V(HashOf(d, Word(s)), 1) = Ref(d, XorN(s, (Len(d) * MulV) % M32, 8))
MulSmall == <<3, 0, 2, 3>>
(* --------- wrong variants: each must violate Agree ------------------------ *)
WordsOnly(x, h) == FoldLeft(LAMBDA g, i : Mix(g, SubSeq(x, NL * (i - 1) + 1, NL * i), XorShift), h, [i \in 1..(Len(x) \div NL) |-> i])
NoLength(x, seed) == Words(x, seed)
=============================================================================
