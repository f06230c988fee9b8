------------------------------ MODULE ReadFiles ------------------------------
(* Resources of read-only files (C15): which backing an open may take.       *)
(* m, f: maps and descriptors held before; m2, f2: after; M, F: the limits.  *)
EXTENDS Integers
Within(m, f, M, F) == m <= M /\ f <= F
\* a successful open takes a map, else a descriptor, else nothing; an empty
\* file cannot be mapped
Takes(empty, nomap, m, f, m2, f2, M, F) ==
  \/ ~empty /\ ~nomap /\ m < M /\ m2 = m + 1 /\ f2 = f
  \/ (empty \/ nomap \/ m >= M) /\ m2 = m /\ (IF f < F THEN f2 = f + 1 ELSE f2 = f)
  \/ (empty \/ nomap) /\ m2 = m /\ f2 = f
=============================================================================
