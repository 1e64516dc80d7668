CONSTANTS
  Max = 10
  MaxCores = 4
  Thresholds = {0, 2}
  Clamp = TRUE
  Join = TRUE
SPECIFICATION Spec
INVARIANTS OnceEach Outside
CHECK_DEADLOCK FALSE
