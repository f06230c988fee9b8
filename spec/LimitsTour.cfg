SPECIFICATION Spec
CONSTANTS
  M = 1
  F = 1
  MaxOpen = 4
  MaxSteps = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
