SPECIFICATION Spec
CONSTANTS
  Configs <- MCConfigs
  Histories <- MCHistories
INVARIANTS Exactly Complete Ordered
PROPERTY Terminates
CHECK_DEADLOCK FALSE
