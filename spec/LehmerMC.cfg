SPECIFICATION Spec
CONSTANTS
  M = 127
  A = 3
  K = 7
INVARIANTS Exact InRange FullPeriod
CHECK_DEADLOCK FALSE
