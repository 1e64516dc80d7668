CONSTANTS
  P = 5
  Digits = 3
  MaxExp = 4
SPECIFICATION Spec
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
