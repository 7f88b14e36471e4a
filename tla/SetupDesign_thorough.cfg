SPECIFICATION Spec
INVARIANTS Sound Result
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxT = 2
  Faults = 2
