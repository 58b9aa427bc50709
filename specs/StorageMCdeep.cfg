SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2, 3}
  MaxLen = 4
INVARIANTS Written Prefix RoundTrip CutFile Noticed
CHECK_DEADLOCK FALSE
