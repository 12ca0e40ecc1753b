SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Depth = 5
  BUG = "mergeflag"
INVARIANT ReadsRight
INVARIANT Sizes
INVARIANT FlagTrue
