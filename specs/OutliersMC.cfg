SPECIFICATION Spec
CONSTANTS
  Levels = {0, 1, 3, 4, 6}
  MaxLen = 6
  Ahead = 3
  Need = 2
INVARIANTS Ordered OnlyValid FirstValidKept CleanStays SpikeGoes ShiftStays JumpsConfirmed
PROPERTY Terminates
CHECK_DEADLOCK FALSE
