SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Scratch = "own"
  Threads = FALSE
  Calls = 3
INVARIANT Alone
