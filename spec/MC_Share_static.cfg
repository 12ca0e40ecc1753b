SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Scratch = "static"
  Threads = TRUE
  Calls = 3
INVARIANT Alone
