SPECIFICATION Spec
CONSTANTS
  N = 3
  Steps = 3
  Pools <- MCPools
INVARIANT SameAsAlone
PROPERTY AllReturned
CHECK_DEADLOCK FALSE
