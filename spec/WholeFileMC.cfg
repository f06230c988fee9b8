SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Removes = TRUE
INVARIANTS WriteRight ReadRight
CHECK_DEADLOCK FALSE
