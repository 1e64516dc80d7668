SPECIFICATION Spec
CONSTANTS Handles = {1, 2, 3} Depth = 4
VIEW View
INVARIANTS TypeOK SharersAgree
PROPERTIES Purity Confined SharesAfterCopy FreshIsAlone
CHECK_DEADLOCK FALSE
