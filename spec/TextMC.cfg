SPECIFICATION Spec
CONSTANTS
  B = 4
  D = 3
  W = 5
  MaxIn = 6
INVARIANTS ConvRight FitRight EscInj
CHECK_DEADLOCK FALSE
