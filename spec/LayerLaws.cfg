SPECIFICATION Spec
CONSTANT Mutant = "none"
INVARIANTS Independent Biased Shapes Agree
CHECK_DEADLOCK FALSE
