SPECIFICATION GSpec
VIEW GView
CHECK_DEADLOCK FALSE
CONSTANTS
  LOGGED = FALSE
  WIDE = FALSE
  FOCUS = "ALL"
  DIRS <- EnvDirs
