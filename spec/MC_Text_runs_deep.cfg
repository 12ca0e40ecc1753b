SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  Mode = "runs"
  MaxBytes = 4
  Stride = 1
  BUG = "none"
INVARIANT RunsRight
