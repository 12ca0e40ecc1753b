SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Scratch = "memo"
  Threads = FALSE
  Calls = 3
INVARIANT Alone
