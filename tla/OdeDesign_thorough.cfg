CONSTANTS
  Bits = 0
  NPick = 120
  Steps = 3
SPECIFICATION Spec
INVARIANTS Exact Taylor Semigroup
CHECK_DEADLOCK FALSE
