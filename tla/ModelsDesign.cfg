CONSTANTS
  Bits = 500
  MaxText = 4
  MaxWalk = 4
  MaxRun = 3
  MaxChain = 5
SPECIFICATION Spec
INVARIANTS TextWellFormed CodecInverts WalkStays GameStays GameMoves ChainMirrors ChainPassive CarDerives Discretised
CHECK_DEADLOCK FALSE
