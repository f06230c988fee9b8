SPECIFICATION Spec
CONSTANTS
  W = 16
  MaxSize = 5
  ClampSkip = TRUE
  CheckWide = TRUE
  MaxOps = 5
INVARIANT Exact
CHECK_DEADLOCK FALSE
