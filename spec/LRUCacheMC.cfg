SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b", "z"}
  Charges = {1, 2}
  Cap = 2
  MaxIns = 4
  MaxHandles = 2
INVARIANTS Consistent ExactlyOnce NeverTwice Latest NothingCachedIfZero
PROPERTIES EvictEnough EvictRight NoOtherEviction Pinned
CHECK_DEADLOCK FALSE
VIEW NoLast
