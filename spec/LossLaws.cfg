SPECIFICATION Spec
CONSTANTS
  Mutant = "none"
INVARIANT TermLaw
INVARIANT XentLaw
INVARIANT CplxLaw
CHECK_DEADLOCK FALSE
