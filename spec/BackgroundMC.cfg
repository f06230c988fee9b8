SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  PerClient = 2
  Spurious = 2
  Recheck = TRUE
  Wake = "empty"
  RunLocked = FALSE
  StartLocked = TRUE
  Pop = "first"
INVARIANTS Once InOrder Sane NoneStuck
CHECK_DEADLOCK FALSE
