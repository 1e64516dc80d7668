SPECIFICATION Spec
CONSTANTS
  Mutant = "none"
  Depth = 3
INVARIANTS NormLaw RunLaw SlideLaw DropLaw
CHECK_DEADLOCK FALSE
