SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 8
  BUG = "copypart"
INVARIANT NeverDangling
INVARIANT ActsOnOwner
INVARIANT NoLeak
