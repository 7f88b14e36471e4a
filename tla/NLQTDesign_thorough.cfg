CONSTANTS
  Bits = 0
  TMax = 3
  N = 2
  NPick = 4
SPECIFICATION Spec
INVARIANTS FixedPoint AffineExact Moves
CHECK_DEADLOCK FALSE
