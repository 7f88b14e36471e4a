CONSTANTS
  Bits = 500
  MaxText = 6
  MaxWalk = 6
  MaxRun = 5
  MaxChain = 9
SPECIFICATION Spec
INVARIANTS TextWellFormed CodecInverts WalkStays GameStays GameMoves ChainMirrors ChainPassive CarDerives Discretised
CHECK_DEADLOCK FALSE
