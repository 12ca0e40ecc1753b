SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  Mode = "bytes"
  MaxBytes = 3
  Stride = 1
  BUG = "overlong"
INVARIANT Sound
INVARIANT Cuts
INVARIANT RoundTrip
