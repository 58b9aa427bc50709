SPECIFICATION Spec
CONSTANTS
  MaxTicks = 4
  Gaps = {0, 1, 3}
  Shapes <- Shapes4
  Balances <- Bal2
  N = 3
INVARIANTS EmaRight EmaBounded RsiRight RsiRange RsiMean RsiNet KRight KRange SmaRight RetsRight Chained
CHECK_DEADLOCK FALSE
