CONSTANTS
  Ring = 3
  Blocks = 4
  Uniform = TRUE
SPECIFICATION Spec
INVARIANTS Progress Complete Stable Replay
PROPERTY Known
CHECK_DEADLOCK FALSE
