SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 6
  BUG = "movekeeps"
INVARIANT NothingBad
INVARIANT OneOwner
INVARIANT NothingLost
INVARIANT Contents
