CONSTANTS
  Handles = {1, 2, 3}
  Sessions = {1, 2}
  Values = {1, 2}
  Depth = 7
  CopyShares = TRUE
  SessionResets = TRUE
SPECIFICATION Spec
INVARIANTS LastBound
CHECK_DEADLOCK FALSE
