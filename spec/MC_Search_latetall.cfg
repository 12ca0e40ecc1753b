SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  Letters2 = {1, 2}
  Depth = 2
  MaxQ = 2
  Dicts = 3
  BUG = "latetall"
INVARIANT Answer
INVARIANT OwnRows
INVARIANT InsideMatrix
