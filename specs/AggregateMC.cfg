SPECIFICATION Spec
CONSTANTS
  MaxTicks = 4
  Period = 2
  Steps0 = {0, 1, 2, 5}
  Shapes <- SmallShapes
  Windows = {1, 2, 3}
  Offsets = {0, 1}
INVARIANTS WindowRight ListenerRight OldIsTrue Sane
CHECK_DEADLOCK FALSE
