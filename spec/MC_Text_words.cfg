SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  Mode = "words"
  MaxBytes = 0
  Stride = 1
  BUG = "none"
INVARIANT TotalOrder
INVARIANT Families
