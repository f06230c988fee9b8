SPECIFICATION Spec
CONSTANTS
  Paths <- PathsDef
  MaxSteps = 5
  MaxData = 2
  MaxLinks = 1
INVARIANTS TreeOK
PROPERTIES RenameMoves OnlyNamed LinksStay
CHECK_DEADLOCK FALSE
VIEW View
