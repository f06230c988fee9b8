SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  PerClient = 1
  Spurious = 1
  Recheck = TRUE
  Wake = "empty"
  RunLocked = FALSE
  StartLocked = TRUE
  Pop = "first"
INVARIANTS Once InOrder Sane NoneStuck
PROPERTIES Eventually
CHECK_DEADLOCK FALSE
