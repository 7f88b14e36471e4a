CONSTANTS
  TMax = 4
  NS = 3
  NY = 2
  ProbSet = {"1/10", "1/4", "1/2", "3/4", "9/10"}
  NPick = 7
SPECIFICATION Spec
INVARIANTS ScoresExact TrackOptimal FwdBwdExact ParIsSeq ControlExact
CHECK_DEADLOCK FALSE
