SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 1, 2}
  MaxLen = 3
INVARIANTS Total
CHECK_DEADLOCK FALSE
