SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters2 = {1, 2}
  MaxLen = 2
  MaxWords = 3
  MaxFaults = 2
  Initial = 64
  BUG = "leakmap"
INVARIANT Known
INVARIANT NumbersRight
INVARIANT Dense
INVARIANT InsideMap
INVARIANT NoOverlap
INVARIANT Held
INVARIANT Linked
INVARIANT Progress
