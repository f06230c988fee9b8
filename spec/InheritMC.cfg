SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Mark = "open"
  Marking = {1, 2, 3}
  Fds = {3, 4, 5}
  Programs = 3
INVARIANTS NoneInherited Held
CHECK_DEADLOCK FALSE
