CONSTANTS
  TMax = 4
  NX = 2
  NU = 2
  CostSet = {0, 1, 3}
  NPick = 3
SPECIFICATION Spec
INVARIANTS SeqOptimal SegExact ParIsSeq CoverOK
CHECK_DEADLOCK FALSE
