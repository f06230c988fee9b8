SPECIFICATION Spec
CONSTANTS
  Names <- N2
  MaxH = 3
  MaxLen = 2
  MaxSteps = 7
  Kinds = {"s", "r"}
INVARIANTS ContentsExact NoDangling OneFilePerName
PROPERTIES HandleStable NamesStay
CHECK_DEADLOCK FALSE
VIEW View
