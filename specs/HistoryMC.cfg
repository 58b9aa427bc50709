SPECIFICATION Spec
CONSTANTS
  MaxT = 6
  MaxLen = 3
  Rate = 2
  Prices = {1, 2}
INVARIANTS ResampleRight GapsRight GapsAreLongest SubsetRight
CHECK_DEADLOCK FALSE
