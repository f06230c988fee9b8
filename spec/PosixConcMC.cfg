SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  StatBy = "fd"
  Pos = "pread"
  First = "once"
  Reopen = FALSE
  Renames = 3
  Reads = 2
INVARIANTS OwnFile SharedRight NoFailure OneEnv
CHECK_DEADLOCK FALSE
