SPECIFICATION Spec
INVARIANTS SubstitutionOfValues NoHole ChainOfGradients FreezingIsShared
CONSTANT Mutant = "none"
CHECK_DEADLOCK FALSE
