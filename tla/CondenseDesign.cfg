CONSTANTS
  Bits = 0
  TMax = 5
  NcMax = 4
  N = 2
  MU = 1
  NPick = 2
SPECIFICATION Spec
INVARIANTS Boundary Unfolds
CHECK_DEADLOCK FALSE
