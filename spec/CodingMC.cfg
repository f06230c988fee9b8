SPECIFICATION Spec
CONSTANTS
  W = 8
  G = 3
  MaxIn = 4
INVARIANTS RoundTrip Canonical FixedTrip
CHECK_DEADLOCK FALSE
