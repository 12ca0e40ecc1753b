SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  Mode = "split"
  MaxBytes = 8
  Stride = 1
  BUG = "none"
INVARIANT SplitRight
