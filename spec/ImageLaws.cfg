SPECIFICATION Spec
INVARIANTS Extension Faithful Ranges
CONSTANTS
 Mutant = "none"
 Depth = 3
CHECK_DEADLOCK FALSE
