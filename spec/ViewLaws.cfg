SPECIFICATION Spec
INVARIANTS Bijection Nested Reshaped Lines Walks Steps
CONSTANTS
 Mutant = "none"
 MaxExt = 3
 MaxDim = 5
CHECK_DEADLOCK FALSE
