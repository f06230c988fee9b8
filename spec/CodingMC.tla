------------------------------ MODULE CodingMC ------------------------------
(* All numbers of W bits with groups of G bits, followed by any bytes, and  *)
(* all byte strings as decoder input, at a small scale.                     *)
EXTENDS Coding, TLC
CONSTANTS W, G, MaxIn
VARIABLES kind, v, in
vars == <<kind, v, in>>
Digits == 0..(P2(G + 1) - 1)
Inputs == UNION {[1..n -> Digits] : n \in 0..MaxIn}
Init == \/ kind = "num" /\ v \in [1..W -> {0, 1}] /\ in \in {<<>>, <<0>>, <<P2(G)>>}
        \/ kind = "in" /\ v = <<>> /\ in \in Inputs
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Max == MaxGroups(W, G)
RoundTrip == kind = "num" =>
   LET e == Varint(v, G)  x == e \o in IN
   /\ Len(e) <= Max
   /\ VarUsed(x, W, G) = Len(e)
   /\ Fits(VarBits(x, Len(e), G), W) /\ Pad(VarBits(x, Len(e), G), W) = v
   /\ \A k \in 0..(Len(e) - 1) : VarUsed(SubSeq(e, 1, k), W, G) = 0   \* truncated input fails
\* canonical: whatever decodes to v in no more groups is its encoding
Canonical == kind = "in" =>
   LET n == VarUsed(in, W, G) IN
   n > 0 /\ Fits(VarBits(in, n, G), W) =>
      LET x == Pad(VarBits(in, n, G), W) IN
      Len(Varint(x, G)) <= n /\ (Len(Varint(x, G)) = n => Varint(x, G) = SubSeq(in, 1, n))
FixedTrip == kind = "num" /\ W % 2 = 0 => BitsOf(Fixed(v, 2), 2, W) = v
(* --------- wrong variants: each must violate one of the invariants ------- *)
GroupsLess(x, GB) == LET t == TopBit(x, Len(x)) IN IF t = 0 THEN 1 ELSE (t + GB - 2) \div GB
GroupsMore(x, GB) == LET t == TopBit(x, Len(x)) IN (t + GB) \div GB
MaxLess(w, GB) == w \div GB
FixedSwapped(x, GB) == LET n == Len(x) \div GB IN [i \in 1..n |-> SumBits(x, (n - i) * GB + 1, GB)]
=============================================================================
