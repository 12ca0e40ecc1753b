SPECIFICATION TSpec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  LOGGED = TRUE
  WIDE = TRUE
  FOCUS <- EnvFocus
  DIRS <- EnvDirs
