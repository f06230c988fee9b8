SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "z"}
  Cap = 1
  Threads = {1, 2}
  MaxIns = 2
  MaxOps = 2
  Locking = "shard"
INVARIANTS Consistent NeverTwice Counted Distinct Progress
CHECK_DEADLOCK FALSE
