SPECIFICATION Spec
CONSTANTS
  NTicks = 4
  Levels <- MCLevels
  MaxBatch = 2
  Funds = 2
  MaxSide = 1
INVARIANTS OneBatch AtMostOnce OnlyLater EmissionOrder NotStale Tried UpdatedOnce LatestSide RowPerTick
PROPERTY Finishes
CHECK_DEADLOCK FALSE
