------------------------------ MODULE LehmerMC ------------------------------
(* Small Mersenne modulus: Schrage's form equals A*x mod M, the two-step      *)
(* reduction of the code equals it too, values stay in range and the period   *)
(* is full (every value is visited).                                          *)
EXTENDS Lehmer, FiniteSets
CONSTANT K
VARIABLES x, seen
vars == <<x, seen>>
TwoK == M + 1
Reduce(p) == LET s == (p \div TwoK) + (p % TwoK) IN IF s > M THEN s - M ELSE s
Init == x = 1 /\ seen = {1}
Next == x' = NextOf(x) /\ seen' = seen \cup {NextOf(x)}
Spec == Init /\ [][Next]_vars
Exact == NextOf(x) = (A * x) % M /\ Reduce(A * x) = NextOf(x)
InRange == x \in 1..(M-1)
FullPeriod == x = 1 => (Cardinality(seen) = 1 \/ seen = 1..(M-1))
(* --------- wrong variants: each must violate Exact or InRange ------------- *)
NoWrap(y) == A * (y % Q) - RR * (y \div Q)
=============================================================================
