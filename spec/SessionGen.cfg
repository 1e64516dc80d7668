CONSTANTS
  N = 4
  Depth = 3
  ClearCache = TRUE
  SharedState = TRUE
SPECIFICATION GSpec
INVARIANTS Done
CHECK_DEADLOCK FALSE
