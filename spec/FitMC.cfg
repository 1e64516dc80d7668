SPECIFICATION Spec
CONSTANTS
  Steps = 2
  Samples = {5}
  Mutant = "none"
INVARIANTS Interleaving Isolation Ready Visits
CHECK_DEADLOCK FALSE
