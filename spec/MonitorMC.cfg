SPECIFICATION Spec
CONSTANTS
  Prod = {1, 2}
  Cons = {3, 4}
  Each = 2
  Cap = 1
  Conds = 2
  UseAll = FALSE
  Atomic = TRUE
  Wake = "one"
  Excl = TRUE
  Hold = TRUE
  All = TRUE
  Recheck = TRUE
INVARIANTS Exclusion OwnerRight Capacity Fifo NoneStuck
CHECK_DEADLOCK FALSE
