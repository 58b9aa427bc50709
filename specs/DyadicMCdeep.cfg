SPECIFICATION Spec
INVARIANTS Sane IntAdd IntMul IntCmp Laws Division ExpLaws ExpOne QuotientOk LnLaws LnRatioOk LnTwo
CHECK_DEADLOCK FALSE
CONSTANTS
  Ints <- DeepInts
  Exps <- DeepExps
