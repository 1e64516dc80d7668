CONSTANT Part = "all"
SPECIFICATION Spec
INVARIANTS Derivative TextbookConv TransposedConv
CHECK_DEADLOCK FALSE
