SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Mutant = "none"
INVARIANTS Moments Updates Constant RateOk
CHECK_DEADLOCK FALSE
