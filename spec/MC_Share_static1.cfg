SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Scratch = "static"
  Threads = FALSE
  Calls = 3
INVARIANT Alone
