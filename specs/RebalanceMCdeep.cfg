SPECIFICATION Spec
INVARIANTS MarketSellRestores MarketBuyRestores EdgeOnRightSide LimitSellRestores LimitBuyRestores
CONSTANTS
  Balances = {0, 1, 2, 3, 4, 5, 7, 10, 31, 100, 4096}
  Prices = {1, 2, 3, 5, 8, 13, 64, 999}
CHECK_DEADLOCK FALSE
