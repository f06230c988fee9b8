SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  PerProc = 2
  Ops = 2
  Faults = 1
  Exits = 1
  Begin = "insert"
  Fail = "close"
  End = "close"
  Table = TRUE
  Undo = TRUE
INVARIANTS AtMostOne InForce Clean Available Prompt
CHECK_DEADLOCK FALSE
