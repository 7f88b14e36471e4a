CONSTANTS
  Bits = 0
  TMax = 4
  N = 2
  MU = 2
  NPick = 3
SPECIFICATION Spec
INVARIANTS SegExact Optimal FwdBwd
CHECK_DEADLOCK FALSE
