-------------------------------- MODULE TextMC --------------------------------
(* Small scale: W-digit numbers of base B written in base D and read back.     *)
EXTENDS TextForms, TLC
CONSTANTS B, D, W, MaxIn
VARIABLES kind, q
vars == <<kind, q>>
Zero == 5                  \* character code of digit 0; alphabet 4..(5+D)
Chars == 4..(Zero + D)
Init == \/ kind = "num" /\ q \in [1..W -> 0..(B-1)]
        \/ kind = "in" /\ q \in UNION {[1..n -> Chars] : n \in 0..MaxIn}
        \/ kind = "esc" /\ q \in UNION {[1..n -> {0, 31, 32, 92, 120, 126, 127, 255}] : n \in 0..3}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RECURSIVE Val(_, _)
Val(x, b) == IF x = <<>> THEN 0 ELSE Val(SubSeq(x, 1, Len(x) - 1), b) * b + x[Len(x)]
MaxVal == [i \in 1..W |-> B - 1]
ConvRight == kind = "num" => /\ Val(InBase(q, B, D), D) = Val(q, B)
                             /\ (InBase(q, B, D)[1] = 0 => InBase(q, B, D) = <<0>>)
                             /\ Strip(InBase(InBase(q, B, D), D, B)) = Strip(q)
FitRight == kind = "in" =>
   LET n == LeadLen(q, 1, Zero, D)
       ds == Strip([i \in 1..n |-> q[i] - Zero])
   IN NumLE(ds, Strip(InBase(MaxVal, B, D))) <=> Val(ds, D) <= Val(MaxVal, B)
\* no two different strings have the same escaped form unless a backslash is copied
EscInj == kind = "esc" => Len(Escape(q)) >= Len(q)
(* --------- wrong variants: each must violate one of the invariants ------- *)
LexOnly(a, b) == LexLE(a, b, 1)
InBaseRev(x, b, d) == LET c == Conv(x, b, d) IN IF c = <<>> THEN <<0>> ELSE Rev(c)
=============================================================================
