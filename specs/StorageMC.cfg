SPECIFICATION Spec
CONSTANTS
  Sizes = {0, 1, 2}
  MaxLen = 3
INVARIANTS Written Prefix RoundTrip CutFile Noticed
PROPERTY Ends_
CHECK_DEADLOCK FALSE
