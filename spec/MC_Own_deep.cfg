SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 12
  BUG = "none"
INVARIANT NothingBad
INVARIANT OneOwner
INVARIANT NothingLost
INVARIANT Contents
