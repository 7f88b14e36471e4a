CONSTANTS
  Bits = 0
  TMax = 4
  N = 2
  MU = 1
  NPick = 2
SPECIFICATION Spec
INVARIANTS SegExact Optimal FwdBwd
CHECK_DEADLOCK FALSE
