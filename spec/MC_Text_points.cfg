SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  Mode = "points"
  MaxBytes = 0
  Stride = 97
  BUG = "none"
INVARIANT Complete
INVARIANT FoldOnce
INVARIANT RoundTrip
INVARIANT ArrayTrip
