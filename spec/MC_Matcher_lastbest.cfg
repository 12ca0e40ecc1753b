SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  LOGGED = FALSE
  FOCUS = "ALL"
  DIRS = "none"
  MaxCalls = 2
  MaxFaults = 1
  BUG = "lastbest"
INVARIANT Answers
INVARIANT Online
INVARIANT NumbersOnce
