SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 8
  BUG = "none"
INVARIANT NeverDangling
INVARIANT ActsOnOwner
INVARIANT NoLeak
