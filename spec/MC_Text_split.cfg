SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  Mode = "split"
  MaxBytes = 6
  Stride = 1
  BUG = "none"
INVARIANT SplitRight
