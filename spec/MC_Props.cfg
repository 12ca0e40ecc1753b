SPECIFICATION PSpec
VIEW PView
CHECK_DEADLOCK FALSE
CONSTANTS
  LOGGED = FALSE
  WIDE = FALSE
  FOCUS = "ALL"
  DIRS <- EnvDirs
INVARIANT DenseIds
INVARIANT CountsRight
INVARIANT MoreBoundMoreFound
INVARIANT Symmetric0
INVARIANT GroupsDisjoint
INVARIANT ReadingRight
INVARIANT Matching
INVARIANT OrderFree
INVARIANT OnlineBonus
PROPERTY Frame
PROPERTY CopiesEqual
PROPERTY Permanent
PROPERTY SettingsApart
PROPERTY QueriesPure
