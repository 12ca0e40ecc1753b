SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  MaxQ = 3
  MaxW = 3
  Letters2 = {1, 2}
  BUG = "lastdel"
INVARIANT NoneCheaper
INVARIANT Attained
INVARIANT SelfZero
INVARIANT PrefixRow
INVARIANT SubstringDiscount
