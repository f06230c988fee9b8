SPECIFICATION Spec
CONSTANTS
Threads = {1, 2}
Args = {1, 2}
MaxOps = 2
Scratch = "own"
State = "own"
Const = "pure"
INVARIANTS AsAlone Holds NoSharing
CHECK_DEADLOCK FALSE
