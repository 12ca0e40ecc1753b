SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  Mode = "bytes"
  MaxBytes = 4
  Stride = 1
  BUG = "none"
INVARIANT Sound
INVARIANT Cuts
INVARIANT RoundTrip
