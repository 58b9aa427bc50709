SPECIFICATION Spec
CONSTANTS
  FirstYear = 1965
  LastYear = 2105
INVARIANTS Epoch Formula YearEnd Months Weekday
CHECK_DEADLOCK FALSE
