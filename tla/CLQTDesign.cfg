CONSTANTS
  Bits = 120
  NPick = 3
  Blks = {1, 3}
SPECIFICATION Spec
INVARIANTS HjbHolds LeftEnd RightEnd MeetMoves Order Order4
CHECK_DEADLOCK FALSE
