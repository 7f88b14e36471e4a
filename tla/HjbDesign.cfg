SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NBlocks = 3
  Costs = {"0", "1"}
  Levels = {"-1", "0", "1/2"}
  Horizon = 3
