SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
  NBlocks = 3
  Costs = {"0", "1", "1e20"}
  Levels = {"-2", "-1", "0", "1/2", "3"}
  Horizon = 5
