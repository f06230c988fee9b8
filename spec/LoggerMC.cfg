SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Calls = 2
  HeadLen = 2
  Small = 5
  MaxLen = 4
  Stream = 4
  Again = "minus1"
  Extra = 2
  Pieces = 1
  Flush = TRUE
  Append_ = TRUE
INVARIANTS NotMixed OnFile InBounds
CHECK_DEADLOCK FALSE
