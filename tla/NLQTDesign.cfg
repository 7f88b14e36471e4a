CONSTANTS
  Bits = 0
  TMax = 3
  N = 1
  NPick = 3
SPECIFICATION Spec
INVARIANTS FixedPoint AffineExact Moves
CHECK_DEADLOCK FALSE
