SPECIFICATION Spec
CONSTANTS
  MaxDepth = 4
  Ops = {"a", "b", "c"}
  Args = {"x", "y"}
  Results = {"r", "s"}
  Wrong = "none"
INVARIANT Forwarded
CHECK_DEADLOCK FALSE
