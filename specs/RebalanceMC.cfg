SPECIFICATION Spec
INVARIANTS MarketSellRestores MarketBuyRestores EdgeOnRightSide LimitSellRestores LimitBuyRestores
CONSTANTS
  Balances = {0, 1, 3, 7, 100}
  Prices = {1, 2, 5, 64}
CHECK_DEADLOCK FALSE
