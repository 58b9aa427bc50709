SPECIFICATION Spec
CONSTANTS
  Values <- Four
  MaxOps = 6
  MaxWindow = 5
INVARIANTS MinRight CandSorted SumsRight VarianceRight QueueRight
CHECK_DEADLOCK FALSE
