CONSTANTS
  Clients = {c1, c2}
  Vals = {0, 1}
  Names = {f, g}
  MaxCalls = 2
  Seconds = {2}
  Writer = {g}
  Stale = FALSE
SPECIFICATION Spec
INVARIANTS Independent DataKept
PROPERTY ResultsKept
CHECK_DEADLOCK FALSE
