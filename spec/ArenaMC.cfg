SPECIFICATION Spec
CONSTANTS
  PtrSize = 1
  Block = 16
  Align = 4
  Sizes = {1, 2, 3, 4, 5, 8, 17}
  MaxAlloc = 5
INVARIANTS AllDisjoint Accounted Sound
CHECK_DEADLOCK FALSE
