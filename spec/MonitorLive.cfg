SPECIFICATION Spec
CONSTANTS
  Prod = {1, 2}
  Cons = {3, 4}
  Each = 1
  Cap = 1
  Conds = 2
  UseAll = FALSE
  Atomic = TRUE
  Wake = "one"
  Excl = TRUE
  Hold = TRUE
  All = TRUE
  Recheck = TRUE
PROPERTIES Ends
CHECK_DEADLOCK FALSE
