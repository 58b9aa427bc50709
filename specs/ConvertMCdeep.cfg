CONSTANTS
  Times = {0, 1, 2, 3}
  MaxLen = 3
  Bounds = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS KeptAreImported FailsLoudly WritesAll NoSilentLoss OnlyReasons InRange
PROPERTY Terminates
CHECK_DEADLOCK FALSE
