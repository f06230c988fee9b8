SPECIFICATION Spec
CONSTANTS
  N = 3
  H = 2
  MaxOps = 2
  LinkOrder = "release"
  LoadOrder = "acquire"
  Bottom = TRUE
  WeakMem = TRUE
INVARIANTS Exact ListOK
CHECK_DEADLOCK FALSE
