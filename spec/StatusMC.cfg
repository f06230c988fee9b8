SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Vals = {"a", "b"}
  MaxSteps = 7
INVARIANTS NoDangling NoLeak NoSharing ValueRight
CHECK_DEADLOCK FALSE
VIEW View
