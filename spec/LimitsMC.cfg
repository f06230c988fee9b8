SPECIFICATION Spec
CONSTANTS
  T = {t1, t2, t3}
  M = 1
  F = 1
  MaxFiles = 2
  Atomic = TRUE
  BackOff = TRUE
INVARIANTS MapLimit FdLimit Returned
CHECK_DEADLOCK FALSE
SYMMETRY Sym
