CONSTANTS
  Times = {0, 1, 2, 4}
  MaxLen = 4
  Bounds = {1, 2, 4}
  Months = {0, 1, 2}
  Top = 2
  Traders = 4
SPECIFICATION Spec
INVARIANTS FailsLoudly NoSilentLoss OnlyReasons ReportsSelected RanksTraders LogsComplete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
