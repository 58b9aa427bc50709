SPECIFICATION Spec
CONSTANTS
  Prices = {4, 8, 12, 16, 20, 24, 28, 32, 40, 48, 60, 64, 80, 96, 120, 128}
  M = 2
  MM = 1
  Rate = 3
INVARIANT Protective
PROPERTIES Settles Ratchet RateLimit MarginKept ResetToMargin
CHECK_DEADLOCK FALSE
