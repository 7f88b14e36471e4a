CONSTANTS
  Ring = 2
  Blocks = 3
  Uniform = FALSE
SPECIFICATION Spec
INVARIANTS Progress Complete Stable Replay
PROPERTY Known
CHECK_DEADLOCK FALSE
