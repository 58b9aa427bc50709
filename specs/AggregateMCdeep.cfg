SPECIFICATION Spec
CONSTANTS
  MaxTicks = 5
  Period = 2
  Steps0 = {0, 1, 2, 5}
  Shapes <- DeepShapes
  Windows = {1, 2, 4}
  Offsets = {0, 1}
INVARIANTS WindowRight ListenerRight OldIsTrue Sane
CHECK_DEADLOCK FALSE
