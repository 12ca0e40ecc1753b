SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 6
  BUG = "leakonrefuse"
INVARIANT NothingBad
INVARIANT OneOwner
INVARIANT NothingLost
INVARIANT Contents
