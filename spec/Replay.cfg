SPECIFICATION Spec
CONSTANTS
  Start <- MStart
  Why <- MWhy
  Take <- MTake
  Tell <- MTell
CHECK_DEADLOCK FALSE
