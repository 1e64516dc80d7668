CONSTANTS
  N = 5
  Depth = 3
  ClearCache = TRUE
  SharedState = TRUE
SPECIFICATION Spec
INVARIANTS ValueIsDenotation EvaluatedOnce BackwardSeesThisRun
CHECK_DEADLOCK FALSE
