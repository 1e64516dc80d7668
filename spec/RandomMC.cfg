SPECIFICATION Spec
INVARIANT Faithful
CONSTANTS Depth = 6 Mutant = "none"
CHECK_DEADLOCK FALSE
