SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  Low = 2
  Top = 3
  Depth = 3
  BUG = "partial"
INVARIANT OneRule
INVARIANT Both
INVARIANT Members
INVARIANT SelfFree
