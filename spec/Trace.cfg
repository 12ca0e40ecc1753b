SPECIFICATION TSpec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  LOGGED = TRUE
  WIDE = FALSE
  FOCUS <- EnvFocus
  DIRS <- EnvDirs
