------------------------------- MODULE Lehmer -------------------------------
(* util/random.h: x -> A*x mod M with M = 2^K - 1, computed by Schrage's      *)
(* method so that no intermediate value exceeds M.                            *)
EXTENDS Integers
CONSTANTS M, A
Q == M \div A
RR == M % A
NextOf(x) == LET t == A * (x % Q) - RR * (x \div Q) IN IF t > 0 THEN t ELSE t + M
=============================================================================
