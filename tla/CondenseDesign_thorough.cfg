CONSTANTS
  Bits = 0
  TMax = 6
  NcMax = 7
  N = 2
  MU = 2
  NPick = 2
SPECIFICATION Spec
INVARIANTS Boundary Unfolds
CHECK_DEADLOCK FALSE
