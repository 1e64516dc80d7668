CONSTANTS
  M = 6
  Sizes = {1, 2, 3}
  Depth = 7
  MatchSize = TRUE
  ClearOnGc = TRUE
SPECIFICATION Spec
INVARIANTS Disjoint Owned Accepted
CHECK_DEADLOCK FALSE
