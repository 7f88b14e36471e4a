CONSTANTS
  Bits = 120
  NPick = 40
  Blks = {1, 2, 4}
SPECIFICATION Spec
INVARIANTS HjbHolds LeftEnd RightEnd MeetMoves Order Order4
CHECK_DEADLOCK FALSE
