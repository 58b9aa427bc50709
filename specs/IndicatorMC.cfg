SPECIFICATION Spec
CONSTANTS
  MaxTicks = 3
  Gaps = {0, 1, 3}
  Shapes <- Shapes3
  Balances <- Bal2
  N = 2
INVARIANTS EmaRight EmaBounded RsiRight RsiRange RsiMean RsiNet KRight KRange SmaRight RetsRight Chained
CHECK_DEADLOCK FALSE
