SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 8
  BUG = "nokeep"
INVARIANT NeverDangling
INVARIANT ActsOnOwner
INVARIANT NoLeak
