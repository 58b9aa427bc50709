SPECIFICATION Spec
CONSTANTS
  FirstYear = 1590
  LastYear = 2410
INVARIANTS Epoch Formula YearEnd Months Weekday
CHECK_DEADLOCK FALSE
