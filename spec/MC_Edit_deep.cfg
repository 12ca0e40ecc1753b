SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  WIDE = FALSE
  MaxQ = 4
  MaxW = 5
  Letters2 = {1, 2}
  BUG = "none"
INVARIANT NoneCheaper
INVARIANT Attained
INVARIANT SelfZero
INVARIANT PrefixRow
INVARIANT SubstringDiscount
