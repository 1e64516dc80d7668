SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Clear = TRUE
  MarkOnce = TRUE
  SkipFrozen = TRUE
INVARIANTS OwnGradientOnce
CHECK_DEADLOCK FALSE
