SPECIFICATION Spec
CONSTANTS
  Prices = {4, 8, 12, 16, 20, 32}
  M = 2
  MM = 1
  Rate = 2
INVARIANT Protective
PROPERTIES Settles Ratchet RateLimit MarginKept ResetToMargin
CHECK_DEADLOCK FALSE
