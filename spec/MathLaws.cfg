SPECIFICATION Spec
CONSTANTS
  Grid = 40
  Mutant = "none"
INVARIANT Derivative
INVARIANT Ordered
INVARIANT Identities
CHECK_DEADLOCK FALSE
