SPECIFICATION Spec
CONSTANTS
  Wide = TRUE
  Again = "rest"
  Key = "whole"
  N = 3
  Signals = 2
  U = 4
  Word = 8
  Users = {0, 1, 2}
  MaxTime = 12
INVARIANTS TimeRight SleptEnough NotTooLong OwnDir
CHECK_DEADLOCK FALSE
