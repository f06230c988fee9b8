----------------------------- MODULE PosixReadMC -----------------------------
(***************************************************************************)
(* Reading a file through the system on machine words of W values: a       *)
(* sequential file with a system position that lseek can move anywhere,    *)
(* and random reads of a mapped file of fixed length.                      *)
(* ClampSkip: skipping computes the target from the file's size.           *)
(* CheckWide: offset and length are compared without wrapping around.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS W, MaxSize, ClampSkip, CheckWide, MaxOps
VARIABLES size, msize, pos, want, ops, okay
vars == <<size, msize, pos, want, ops, okay>>
\* the file's byte i is i; pos: the system's position; want: where the specification is
Half == W \div 2
Signed(x) == IF x >= Half THEN x - W ELSE x
Init == size \in 0..MaxSize /\ msize = size /\ pos = 0 /\ want = 0 /\ ops = 0 /\ okay = TRUE
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Op == ops < MaxOps /\ ops' = ops + 1
\* a read returns k bytes from pos; the system may return fewer than asked
DoRead(n) ==
  /\ Op
  /\ \E k \in 0..Min2(n, Max2(0, size - pos)) :
       /\ (n > 0 /\ pos < size) => k > 0
       /\ okay' = (okay /\ (k > 0 => pos = want) /\ (k = 0 => n = 0 \/ want >= size))
       /\ pos' = pos + k /\ want' = want + k
  /\ UNCHANGED <<size, msize>>
Interrupt == Op /\ UNCHANGED <<size, msize, pos, want, okay>>
DoSkip(n) ==
  /\ Op /\ want' = Min2(want + n, size)
  /\ IF ClampSkip THEN pos' = (IF n > Max2(0, size - pos) THEN Max2(size, pos) ELSE pos + n)
     ELSE pos' = (IF pos + Signed(n) < 0 THEN pos ELSE pos + Signed(n))
  /\ UNCHANGED <<size, msize, okay>>
Grow == Op /\ size < MaxSize + 2 /\ size' = size + 1 /\ UNCHANGED <<msize, pos, want, okay>>
\* a mapped file: [0, msize) is readable
DoPRead(off, n) ==
  /\ Op
  /\ LET reject == IF CheckWide THEN off > msize \/ n > msize - off ELSE (off + n) % W > msize
     IN okay' = (okay /\ (IF reject THEN off + n > msize ELSE off + n <= msize))
  /\ UNCHANGED <<size, msize, pos, want>>
Next == \/ \E n \in 0..(W - 1) : DoRead(n) \/ DoSkip(n)
        \/ Interrupt \/ Grow
        \/ \E off, n \in 0..(W - 1) : DoPRead(off, n)
Spec == Init /\ [][Next]_vars
Exact == okay
=============================================================================
