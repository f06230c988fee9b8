SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  MaxFiles = 2
  MaxOps = 4
  EnvLock = TRUE
  RefLock = TRUE
  DataLock = TRUE
  SizeReads = 1
INVARIANTS Safe Counted Whole Contiguous Progress
CHECK_DEADLOCK FALSE
