CONSTANTS
  Clients = {c1, c2}
  Vals = {0, 1}
  Names = {g}
  MaxCalls = 2
  Seconds = {1, 2}
  Writer = {g}
  Stale = FALSE
SPECIFICATION Spec
INVARIANTS Independent DataKept
PROPERTY ResultsKept
CHECK_DEADLOCK FALSE
