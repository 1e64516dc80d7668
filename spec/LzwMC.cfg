CONSTANTS
  A = 2
  W0 = 2
  U = 4
  MaxLen = 12
  Sizes = {4, 5, 6, 7, 8, 9, 10, 12, 16, 64}
SPECIFICATION Spec
INVARIANTS Lossless
CHECK_DEADLOCK FALSE
