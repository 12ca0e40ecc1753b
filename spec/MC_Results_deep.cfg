SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 5
  Depth = 7
  BUG = "none"
INVARIANT ReadsRight
INVARIANT Sizes
INVARIANT FlagTrue
