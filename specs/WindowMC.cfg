SPECIFICATION Spec
CONSTANTS
  Values <- Three
  MaxOps = 5
  MaxWindow = 4
INVARIANTS MinRight CandSorted SumsRight VarianceRight QueueRight
CHECK_DEADLOCK FALSE
