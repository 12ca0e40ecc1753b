SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  Letters2 = {1, 2}
  Depth = 5
  MaxQ = 4
  Dicts = 0
  BUG = "none"
INVARIANT Answer
INVARIANT OwnRows
INVARIANT InsideMatrix
