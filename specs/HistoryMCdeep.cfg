SPECIFICATION Spec
CONSTANTS
  MaxT = 7
  MaxLen = 4
  Rate = 2
  Prices = {1, 2}
INVARIANTS ResampleRight GapsRight GapsAreLongest SubsetRight
CHECK_DEADLOCK FALSE
