SPECIFICATION Spec
CONSTANTS
Readers = {1, 2}
Sizes = {3, 10}
MaxBlocks = 3
MaxReads = 2
Update = "add"
When = "before"
Atomic = TRUE
Ptr = 1
INVARIANTS Exact Covered NeverMore Grows
CHECK_DEADLOCK FALSE
