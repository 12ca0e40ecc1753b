SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Depth = 5
  BUG = "onelazy"
INVARIANT ReadsRight
INVARIANT Sizes
INVARIANT FlagTrue
