SPECIFICATION Spec
CONSTANTS
  LB = 2
  NL = 4
  Base = 4
  XorShift = 4
  LastShift = 6
  Mul <- MulSmall
  MaxLen = 5
  Seeds = {0, 1, 77, 255}
INVARIANTS Agree
CHECK_DEADLOCK FALSE
