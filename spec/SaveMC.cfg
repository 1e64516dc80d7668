CONSTANTS
  Vars = {1, 2, 3}
  Values = {0, 1, 2}
  Files = {1, 2}
  Depth = 4
  ById = TRUE
SPECIFICATION Spec
INVARIANTS Lossless
CHECK_DEADLOCK FALSE
