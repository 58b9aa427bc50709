SPECIFICATION Spec
CONSTANTS
  Configs <- MCConfigs
  Starts <- MCStarts
  Ticks <- MCTicks
  Orders <- MCOrders
  MaxBase <- MCMaxBase
  MaxQuote <- MCMaxQuote
  MaxFee <- MCMaxFee
CONSTRAINT StateBound
INVARIANTS Solvent OnGrid
PROPERTY FeeMonotone
CHECK_DEADLOCK FALSE
