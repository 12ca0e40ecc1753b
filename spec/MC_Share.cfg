SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Scratch = "own"
  Threads = TRUE
  Calls = 3
INVARIANT Alone
