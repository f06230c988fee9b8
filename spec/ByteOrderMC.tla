----------------------------- MODULE ByteOrderMC -----------------------------
EXTENDS ByteOrder
CONSTANTS Bytes, MaxLen
VARIABLES a, b, c
Str == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Init == a \in Str /\ b \in Str /\ c \in Str
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Total == /\ Cmp(a, b) = -Cmp(b, a)
         /\ (Cmp(a, b) = 0) = (a = b)
         /\ Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 => Cmp(a, c) <= 0
         /\ Prefix(a, b) => Cmp(a, b) <= 0
         /\ Prefix(a, b) /\ Prefix(a, c) /\ Cmp(b, c) = 0 => b = c
         \* strings between two with a common prefix have it too
         /\ Cmp(a, b) <= 0 /\ Cmp(b, c) <= 0 =>
              \A n \in 0..Len(a) : Prefix(SubSeq(a, 1, n), c) => Prefix(SubSeq(a, 1, n), b)
(* --------- wrong variant: must violate Total ------------------------------ *)
CmpShort(x, y) == IF Prefix(x, y) \/ Prefix(y, x) THEN 0 ELSE CmpFrom(x, y, 1)
=============================================================================
